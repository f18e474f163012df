/* C14: a forest written and read back is the same forest, whatever the number
 * of writing and reading processes and the options. */
#include "core.hpp"
#include <sc_io.h>
#include <unistd.h>

namespace {

struct Saved                            /* what the file must mean, known to every process */
{
  GForest f;
  std::vector<i64> part;                /* leaves before every saving process */
  size_t dsize = 0;                     /* data in the file */
  bool partition = false;
  u64 chash = 0, salt = 0;
  size_t attr = 0;
  std::vector<char> attrbytes;
  std::vector<double> verts;
  std::vector<p4est_topidx_t> ttv;
};

static u64 leaf_h (const Leaf & a, u64 salt) { p4est_quadrant_t q; leaf_to_quad (a, &q); return leaf_id (a.t, &q, salt); }

static void fill (p4est_t * p, u64 salt)
{
  if (!p->data_size) return;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
      fill_bytes (q->p.user_data, p->data_size, leaf_id (t, q, salt));
    }
  }
}

static void note_conn (p4est_connectivity_t * c, Saved & s)
{
  s.chash = conn_hash (c); s.attr = c->tree_attr_bytes;
  if (s.attr) s.attrbytes.assign (c->tree_to_attr, c->tree_to_attr + s.attr * c->num_trees);
  s.verts.assign (c->vertices, c->vertices + (c->vertices ? 3 * c->num_vertices : 0));
  s.ttv.assign (c->tree_to_vertex, c->tree_to_vertex + (c->tree_to_vertex ? NC * c->num_trees : 0));
}

static void check_conn (p4est_connectivity_t * c, const Saved & s, const char *w)
{
  CHK (conn_hash (c) == s.chash, "connectivity", "%s: connectivity differs", w);
  CHK (c->tree_attr_bytes == s.attr && (!s.attr || !memcmp (c->tree_to_attr, s.attrbytes.data (), s.attrbytes.size ())), "tree-attributes", "%s: tree attributes differ", w);
  CHK ((c->vertices ? 3 * (size_t) c->num_vertices : 0) == s.verts.size () && (s.verts.empty () || !memcmp (c->vertices, s.verts.data (), s.verts.size () * sizeof (double))), "vertices", "%s: vertices differ", w);
  CHK ((c->tree_to_vertex ? (size_t) NC * c->num_trees : 0) == s.ttv.size () && (s.ttv.empty () || !memcmp (c->tree_to_vertex, s.ttv.data (), s.ttv.size () * sizeof (s.ttv[0]))), "vertices", "%s: vertex table differs", w);
}

/* judge a forest that was read back; part: expected offsets */
static void check_loaded (p4est_t * p, const Saved & s, const std::vector<i64> & part, size_t dsize, bool data, void *up, const char *w)
{
  int P = p->mpisize, me = p->mpirank;
  CHK (p->revision == 0, "revision", "%s: revision %ld", w, p->revision);
  CHK (p->user_pointer == up, "user-pointer", "%s", w);
  CHK (p->data_size == dsize && (p->user_data_pool != NULL) == (dsize > 0), "data-size", "%s: data size %zu, requested %zu", w, p->data_size, dsize);
  CHK (p4est_is_valid (p), "valid", "%s: loaded forest invalid", w);
  GForest g = gather (p);
  bool same = g.q.size () == s.f.q.size ();
  for (size_t i = 0; same && i < g.q.size (); ++i) same = g.q[i].same (s.f.q[i]);
  CHK (same, "leaves", "%s: %zu leaves read, %zu saved, or different ones", w, g.q.size (), s.f.q.size ());
  for (int i = 0; i <= P; ++i) CHK (p->global_first_quadrant[i] == part[i], "partition", "%s: process %d of %d begins at %lld, expected %lld", w, i, P, (long long) p->global_first_quadrant[i], (long long) part[i]);
  CHK ((i64) p->global_num_quadrants == (i64) s.f.q.size () && p->local_num_quadrants == part[me + 1] - part[me], "counts", "%s", w);
  if (!same) return;
  count ("leaves_read", p->local_num_quadrants);
  if (!dsize || p->data_size != dsize) return;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (size_t z = 0; z < tr->quadrants.elem_count; ++z) {
      p4est_quadrant_t *q = p4est_quadrant_array_index (&tr->quadrants, z);
      if (data) CHK (check_bytes (q->p.user_data, dsize, leaf_id (t, q, s.salt)), "user-data", "%s: data of leaf %s differs", w, leaf_str (mkleaf (t, q)).c_str ());
      else memset (q->p.user_data, 0x5e, dsize);        /* there must be room for it */
      count (data ? "leaf_data_checked" : "leaf_data_unread");
    }
  }
}

static std::vector<i64> uniform (i64 n, int P) { std::vector<i64> o; for (int i = 0; i <= P; ++i) o.push_back ((i64) ((__int128) n * i / P)); return o; }

static std::vector<unsigned char> slurp (const std::string & fn)
{
  std::vector<unsigned char> b; FILE *f = fopen (fn.c_str (), "rb");
  if (!f) return b;
  unsigned char buf[65536]; size_t n;
  while ((n = fread (buf, 1, sizeof buf, f)) > 0) b.insert (b.end (), buf, buf + n);
  fclose (f); return b;
}

static void save_it (const std::string & fn, p4est_t * p, bool data, bool part, bool plain)
{
  if (plain && part) p4est_save (fn.c_str (), p, data);
  else p4est_save_ext (fn.c_str (), p, data, part);
}

/* every leaf as the documented quadruple of coordinates and level, then its data */
static void check_file_body (const std::string & fn, const Saved & s)
{
  std::vector<unsigned char> b = slurp (fn);
  size_t rec = (DIM + 1) * sizeof (p4est_qcoord_t) + s.dsize, n = s.f.q.size ();
  CHK (b.size () > n * rec, "file-size", "file of %zu bytes for %zu leaves", b.size (), n);
  if (b.size () <= n * rec) return;
  size_t off = b.size () - n * rec;
  CHK (off % 32 == 0, "file-size", "leaves begin at unaligned offset %zu, or the file is too short or too long", off);
  for (size_t i = 0; i < n; ++i) {
    p4est_qcoord_t v[DIM + 1]; memcpy (v, &b[off + i * rec], sizeof v);
    const Leaf & a = s.f.q[i];
    bool ok = v[0] == a.x[0] && v[1] == a.x[1] && (DIM == 2 || v[DIM - 1] == a.x[2]) && v[DIM] == a.l;
    CHK (ok, "file-leaf", "record %zu is not leaf %s", i, leaf_str (a).c_str ());
    if (s.dsize) CHK (check_bytes (&b[off + i * rec + sizeof v], s.dsize, leaf_h (a, s.salt)), "file-data", "record %zu has other data", i);
    if (!ok) break;
  }
  count ("file_records", (long) n);
}

static void load_on (Rng & r, MPI_Comm comm, const std::string & fn, const Saved & s, const char *w, int how = -1)
{
  int P; MPI_Comm_size (comm, &P);
  int SP = s.partition ? (int) s.part.size () - 1 : 1;
  bool ap = SP != P || r.chance (0.5);
  bool bh = r.chance (0.5);
  size_t ds = s.dsize; bool ld = false;
  switch (r.below (4)) {
  case 0: ds = 0; ld = r.chance (0.5); break;   /* zero size: load_data is ignored */
  case 1: ds = r.pick ({ 1, 4, 8, 40 }); ld = false; break;
  case 2: ds = s.dsize ? s.dsize : 16; ld = false; break;
  default: ld = s.dsize > 0; break;
  }
  void *up = (void *) (intptr_t) (8 * r.below (1000));
  std::vector<i64> n = uniform ((i64) s.f.q.size (), P);
  if (!ap) { if (s.partition) n = s.part; else n = { 0, (i64) s.f.q.size () }; }
  p4est_connectivity_t *c = NULL; p4est_t *p;
  std::string ww = std::string (w) + (ap ? " autopartition" : " stored partition") + (bh ? " broadcast" : "") + (ld ? " with data" : "");
  if (how < 0) how = r.below (4);
  if (how == 0 && !ap) { p = p4est_load (fn.c_str (), comm, ds, ld, up, &c); count ("loads_plain"); }
  else if (how <= 1) { p = p4est_load_ext (fn.c_str (), comm, ds, ld, ap, bh, up, &c); count ("loads_ext"); }
  else {
    /* sources: an open file, or memory */
    std::vector<unsigned char> b = slurp (fn);
    size_t tail = r.pick ({ 0, 0, 13, 64 });
    sc_array_t buf; sc_array_init_size (&buf, 1, b.size () + tail);
    memcpy (buf.array, b.data (), b.size ());
    if (tail) memset (buf.array + b.size (), 0xEE, tail);
    sc_io_source_t *src = how == 2 ? sc_io_source_new (SC_IO_TYPE_BUFFER, SC_IO_ENCODE_NONE, &buf)
      : sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, fn.c_str ());
    p = p4est_source_ext (src, comm, ds, ld, ap, bh, up, &c);
    /* every process is left after the forest; with a broadcast header the count omits it on the others */
    if (how == 2 && tail) {
      unsigned char t[64]; memset (t, 0, sizeof t); size_t got = 0;
      int rv = sc_io_source_read (src, t, tail, &got);
      bool ok = !rv && got == tail; for (size_t i = 0; ok && i < tail; ++i) ok = t[i] == 0xEE;
      CHK (ok, "source-end", "%s: source not positioned after the forest", ww.c_str ());
      count ("source_tails");
    }
    sc_io_source_destroy (src);
    sc_array_reset (&buf);
    count (how == 2 ? "loads_memory" : "loads_stream");
  }
  if (SP != P) gcount ("loads_other_size");
  check_conn (c, s, ww.c_str ());
  check_loaded (p, s, n, ds, ld && ds > 0, up, ww.c_str ());
  p4est_destroy (p); p4est_connectivity_destroy (c);
}

static void inflate_round (Rng & r, p4est_t * p, const Saved & s, bool null_form)
{
  sc_array_t *data = NULL;
  bool wd = p->data_size > 0 && r.chance (0.7);
  sc_array_t *q = p4est_deflate_quadrants (p, wd ? &data : NULL);
  CHK (q->elem_size == sizeof (p4est_qcoord_t) && q->elem_count == (size_t) p->local_num_quadrants * (DIM + 1), "deflate-size", "deflated array of %zu", q->elem_count);
  std::vector<Leaf> mine = local_leaves (p);
  for (size_t i = 0; i < mine.size () && (i + 1) * (DIM + 1) <= q->elem_count; ++i) {
    p4est_qcoord_t *v = (p4est_qcoord_t *) sc_array_index (q, i * (DIM + 1));
    CHK (v[0] == mine[i].x[0] && v[1] == mine[i].x[1] && (DIM == 2 || v[DIM - 1] == mine[i].x[2]) && v[DIM] == mine[i].l, "deflate-leaf", "entry %zu is not leaf %s", i, leaf_str (mine[i]).c_str ());
    if (data) CHK (check_bytes (sc_array_index (data, i), p->data_size, leaf_h (mine[i], s.salt)), "deflate-data", "data %zu", i);
  }
  std::vector<p4est_gloidx_t> pt (p->connectivity->num_trees + 1, -1);
  p4est_comm_count_pertree (p, pt.data ());
  void *up = (void *) (intptr_t) (8 * r.below (1000));
  std::vector<p4est_gloidx_t> gfq (p->global_first_quadrant, p->global_first_quadrant + p->mpisize + 1);
  std::vector<i64> part (gfq.begin (), gfq.end ());
  p4est_t *g = null_form ? p4est_inflate_null (p->mpicomm, p->connectivity, gfq.data (), pt.data (), q, data, up)
    : p4est_inflate (p->mpicomm, p->connectivity, gfq.data (), pt.data (), q, data, up);
  std::fill (gfq.begin (), gfq.end (), -5); std::fill (pt.begin (), pt.end (), -5);
  sc_array_t *keepq = q;
  CHK (g != NULL, "inflate-null", "a valid forest was refused");
  if (g) {
    for (size_t i = 0; data && i < data->elem_count * data->elem_size; ++i) data->array[i] = 0x11;
    check_loaded (g, s, part, data ? data->elem_size : 0, data != NULL, up, "inflate");
    p4est_destroy (g); count ("inflated");
  }
  /* damaged leaves of one process must be refused everywhere */
  if (null_form) {
    for (int k = 0; k < 3; ++k) {
      for (size_t i = 0; i < mine.size (); ++i) {      /* restore */
        p4est_qcoord_t *v = (p4est_qcoord_t *) sc_array_index (keepq, i * (DIM + 1));
        for (int d = 0; d < DIM; ++d) v[d] = mine[i].x[d];
        v[DIM] = mine[i].l;
      }
      std::vector<p4est_gloidx_t> gf (p->global_first_quadrant, p->global_first_quadrant + p->mpisize + 1), pp (p->connectivity->num_trees + 1);
      p4est_comm_count_pertree (p, pp.data ());
      int victim = r.below (p->mpisize), kind = r.below (3), did = 0;
      u64 pos = r.next ();
      if (p->mpirank == victim) {
        /* an inner leaf of a tree's local range */
        std::vector<int> cand;
        for (int i = 1; i + 1 < (int) mine.size (); ++i) if (mine[i - 1].t == mine[i].t && mine[i + 1].t == mine[i].t) cand.push_back (i);
        if (!cand.empty ()) {
          int i = cand[pos % cand.size ()];
          p4est_qcoord_t *v = (p4est_qcoord_t *) sc_array_index (keepq, i * (DIM + 1));
          if (kind == 0) { did = 1; for (int d = 0; d <= DIM; ++d) v[d] = (v - DIM - 1)[d]; }            /* twice the same leaf */
          else if (kind == 1 && mine[i].l < QML) { did = 1; v[DIM]++; }                                        /* a gap */
          else if (kind == 2 && i + 2 < (int) mine.size () && mine[i + 2].t == mine[i].t) { did = 1; for (int d = 0; d <= DIM; ++d) std::swap (v[d], (v + DIM + 1)[d]); }     /* out of order */
        }
      }
      if (!allmax (did, p->mpicomm)) continue;
      sc_array_t *dd = NULL;
      if (wd) { dd = sc_array_new_size (p->data_size, mine.size ()); memset (dd->array, 1, dd->elem_size * dd->elem_count); }
      p4est_t *b = p4est_inflate_null (p->mpicomm, p->connectivity, gf.data (), pp.data (), keepq, dd, up);
      CHK (b == NULL, "inflate-accepts-damage", "damage of kind %d on process %d was accepted", kind, victim);
      if (b) p4est_destroy (b);
      if (dd) sc_array_destroy (dd);
      gcount ("damaged_refused");
    }
  }
  sc_array_destroy (keepq); if (data) sc_array_destroy (data);
}
}

static void prop (Rng & r)
{
  MPI_Comm comm = MPI_COMM_WORLD;
  int P = run.size, me = run.rank;
  std::string nm; ConnOpts co; co.want_vertices = r.chance (0.4); co.max_trees = 8;
  p4est_connectivity_t *c = gen_conn (r, co, nm);
  if (r.chance (0.4)) {
    size_t ab = r.pick ({ 1, 3, 8, 24 });
    p4est_connectivity_set_attr (c, ab);
    for (p4est_topidx_t t = 0; t < c->num_trees; ++t) fill_bytes (c->tree_to_attr + t * ab, ab, hcomb (t, 99));
  }
  ForestOpts fo; fo.data_size = r.pick ({ 0, 0, 1, 3, 8, 17, 100 }); fo.target = r.pick ({ 1, 20, 120, 400 }); fo.maxl = 5; fo.deep = 0.3;
  p4est_t *p = gen_forest (r, comm, c, fo);
  if (fo.data_size == 0 && p->data_size) p4est_reset_data (p, 0, NULL, NULL);
  Saved s; s.salt = r.next ();
  fill (p, s.salt);
  s.f = gather (p); note_conn (c, s);
  for (int i = 0; i <= P; ++i) s.part.push_back (p->global_first_quadrant[i]);
  bool data = r.chance (0.7);
  s.partition = r.chance (0.5);
  s.dsize = data ? p->data_size : 0;
  describe ("%s, %zu leaves, data %zu, %s", nm.c_str (), s.f.q.size (), s.dsize, s.partition ? "partition saved" : "no partition saved");
  distinct_state (hcomb (hcomb (s.f.hash (true), s.chash), s.dsize * 4 + s.partition * 2));
  std::string fn = scratch ("save.p4p"), fn2 = scratch ("save2.p4p");
  if (me == 0 && r.chance (0.3)) {      /* an older, longer file of the same name; local decision of process 0 */
    FILE *f = fopen (fn.c_str (), "wb"); if (f) { std::string junk (200000, 'j'); fwrite (junk.data (), 1, junk.size (), f); fclose (f); }
  }
  r.s = mix64 (hcomb (run.seed, run.caseno) + 77);
  MPI_Barrier (comm);
  long rev = p->revision;
  save_it (fn, p, data, s.partition, r.chance (0.5));
  CHK (p->revision == rev, "revision", "saving changed the revision");
  if (me == 0) check_file_body (fn, s);
  gcount ("saves");
  load_on (r, comm, fn, s, "same size");
  if (r.chance (0.5)) load_on (r, comm, fn, s, "same size");
  { Rng rs (hcomb (r.next (), 0)); if (r.chance (0.4)) load_on (rs, MPI_COMM_SELF, fn, s, "alone"); }
  MPI_Comm sub = MPI_COMM_NULL; int color = 0;
  if (P > 1 && r.chance (0.6)) {
    u64 h = r.next (); int groups = r.range (1, 3);
    color = (int) (hcomb (h, me) % (groups + 1));
    MPI_Comm_split (comm, color, r.chance (0.5) ? me : -me, &sub);
    Rng rs (hcomb (h, color));
    load_on (rs, sub, fn, s, "subgroup");
    gcount ("subgroup_loads");
  }
  /* the same forest, saved by others, must give the same bytes if the partition is not stored */
  {
    std::string fa = scratch ("one.p4p");
    save_it (fa, p, data, false, false);
    std::vector<unsigned char> a; if (me == 0) a = slurp (fa);
    p4est_t *cp = p4est_copy (p, 1);
    random_partition (r, cp, true);
    save_it (fn2, cp, data, false, false);
    if (me == 0) { std::vector<unsigned char> b = slurp (fn2); CHK (a == b, "file-depends-on-partition", "files of the same forest in two partitions differ (%zu and %zu bytes)", a.size (), b.size ()); }
    gcount ("files_compared");
    p4est_destroy (cp);
    if (sub != MPI_COMM_NULL) {
      /* a group of another size reads and writes */
      p4est_connectivity_t *c2; std::string fg = scratch (("g" + std::to_string (color)).c_str ());
      p4est_t *q = p4est_load_ext (fa.c_str (), sub, s.dsize, 1, 1, 0, NULL, &c2);
      save_it (fg, q, data, false, false);
      if (q->mpirank == 0) { std::vector<unsigned char> b = slurp (fg), a2 = slurp (fa); CHK (a2 == b, "file-depends-on-size", "a file read and rewritten by %d instead of %d processes differs (%zu and %zu bytes)", q->mpisize, P, a2.size (), b.size ()); unlink (fg.c_str ()); }
      gcount ("files_rewritten");
      p4est_destroy (q); p4est_connectivity_destroy (c2);
    }
    MPI_Barrier (comm);
    if (me == 0) unlink (fa.c_str ());
  }
  inflate_round (r, p, s, r.chance (0.5));
  if (sub != MPI_COMM_NULL) MPI_Comm_free (&sub);
  MPI_Barrier (comm);
  if (me == 0) { unlink (fn.c_str ()); unlink (fn2.c_str ()); }
  /* the forest itself is untouched */
  GForest g = gather (p); CHK (g.hash (true) == s.f.hash (true), "source-changed", "saving changed the forest");
  p4est_destroy (p); p4est_connectivity_destroy (c);
}
REGISTER_PROP ("C14", prop)

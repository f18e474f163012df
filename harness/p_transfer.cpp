/* C15: data transfer between partitions.  Every byte of every leaf's datum is a
 * function of the leaf's global number and of the transfer, so the receiver
 * can tell lost, duplicated, shifted and mixed-up data. */
#include "core.hpp"
#ifdef P4_TO_P8
#include <p8est_communication.h>
#else
#include <p4est_communication.h>
#endif

namespace {

struct Tx
{
  int kind;                             /* 0 fixed, 1 custom, 2 items */
  size_t size = 0;                      /* fixed size or item size */
  std::vector<p4est_gloidx_t> src, dst;
  int tag; u64 salt;
  std::vector<unsigned char> in, out, in0;
  std::vector<int> sc, dc;
  size_t need = 0;
  p4est_transfer_context_t *tc = NULL;

  int cnt (i64 g) const                 /* count or size of a leaf's datum */
  {
    u64 h = hcomb (salt, g);
    if (salt % 7 == 0) return 0;
    if (h % 3 == 0) return 0;
    if (h % 41 == 1) return 60 + (int) ((h >> 20) % 300);
    return (int) ((h >> 20) % 9);
  }
  size_t bytes (i64 g) const { return kind == 0 ? size : kind == 1 ? cnt (g) : size * cnt (g); }
  void init (int me)
  {
    for (i64 g = src[me]; g < src[me + 1]; ++g) {
      size_t b = bytes (g), o = in.size ();
      if (kind) sc.push_back (cnt (g));
      in.resize (o + b);
      if (b) fill_bytes (&in[o], b, hcomb (salt, g));
    }
    for (i64 g = dst[me]; g < dst[me + 1]; ++g) { need += bytes (g); if (kind) dc.push_back (cnt (g)); }
    out.assign (need + 64, 0xC3);
    in0 = in;
  }
  /* exactly sized heap blocks so that the sanitizer sees any overrun */
  unsigned char *hin = NULL, *hout = NULL; int *hsc = NULL, *hdc = NULL;
  void blocks ()
  {
    hin = (unsigned char *) malloc (in.size () ? in.size () : 1); if (in.size ()) memcpy (hin, in.data (), in.size ());
    hout = (unsigned char *) malloc (need + 32); memset (hout, 0xC3, need + 32);
    hsc = (int *) malloc (sc.size () * 4 + 1); if (sc.size ()) memcpy (hsc, sc.data (), sc.size () * 4);
    hdc = (int *) malloc (dc.size () * 4 + 1); if (dc.size ()) memcpy (hdc, dc.data (), dc.size () * 4);
  }
  void release () { free (hin); free (hout); free (hsc); free (hdc); }
  void run_it (MPI_Comm c, bool split)
  {
    if (kind == 0) { if (split) tc = p4est_transfer_fixed_begin (dst.data (), src.data (), c, tag, hout, hin, size); else p4est_transfer_fixed (dst.data (), src.data (), c, tag, hout, hin, size); }
    else if (kind == 1) { if (split) tc = p4est_transfer_custom_begin (dst.data (), src.data (), c, tag, hout, hdc, hin, hsc); else p4est_transfer_custom (dst.data (), src.data (), c, tag, hout, hdc, hin, hsc); }
    else { if (split) tc = p4est_transfer_items_begin (dst.data (), src.data (), c, tag, hout, hdc, hin, hsc, size); else p4est_transfer_items (dst.data (), src.data (), c, tag, hout, hdc, hin, hsc, size); }
  }
  void end (bool generic)
  {
    if (generic) p4est_transfer_end (tc);
    else if (kind == 0) p4est_transfer_fixed_end (tc);
    else if (kind == 1) p4est_transfer_custom_end (tc);
    else p4est_transfer_items_end (tc);
    tc = NULL;
  }
  void check (int me)
  {
    static const char *kn[] = { "fixed", "custom", "items" };
    size_t o = 0;
    for (i64 g = dst[me]; g < dst[me + 1]; ++g) {
      size_t b = bytes (g);
      CHK (b == 0 || check_bytes (hout + o, b, hcomb (salt, g)), "payload", "%s size %zu: datum of leaf %lld of %lld (%zu bytes) did not arrive intact", kn[kind], size, (long long) g, (long long) dst.back (), b);
      o += b;
      count ("data_checked"); if (b == 0) count ("empty_data"); else if (!(src[me] <= g && g < src[me + 1])) count ("data_moved");
    }
    for (int i = 0; i < 32; ++i) CHK (hout[need + i] == 0xC3, "overrun", "%s: written past the end of the destination", kn[kind]);
    CHK (in.empty () || !memcmp (hin, in0.data (), in0.size ()), "source-changed", "%s: the source data was modified", kn[kind]);
    CHK (sc.empty () || !memcmp (hsc, sc.data (), sc.size () * 4), "source-changed", "%s: the source sizes were modified", kn[kind]);
    CHK (dc.empty () || !memcmp (hdc, dc.data (), dc.size () * 4), "source-changed", "%s: the destination sizes were modified", kn[kind]);
    count (kind == 0 ? "fixed_transfers" : kind == 1 ? "custom_transfers" : "item_transfers");
  }
};

static std::vector<p4est_gloidx_t> offsets (const std::vector<i64> & n)
{
  std::vector<p4est_gloidx_t> g (1, 0);
  for (auto k : n) g.push_back (g.back () + k);
  return g;
}
}

static void prop (Rng & r)
{
  MPI_Comm comm = MPI_COMM_WORLD;
  int P = run.size, me = run.rank;
  /* a real repartition: quadrant ids as external data */
  if (r.chance (0.3)) {
    std::string nm; ConnOpts co; co.max_trees = 4;
    p4est_connectivity_t *c = gen_conn (r, co, nm);
    ForestOpts fo; fo.target = 60; fo.maxl = 4;
    p4est_t *p = gen_forest (r, comm, c, fo);
    std::vector<p4est_gloidx_t> g0 (p->global_first_quadrant, p->global_first_quadrant + P + 1);
    size_t sz = r.pick ({ 8, 24, 1000 });
    std::vector<Leaf> a = local_leaves (p);
    std::vector<unsigned char> src (a.size () * sz + 1);
    for (size_t i = 0; i < a.size (); ++i) { p4est_quadrant_t q; leaf_to_quad (a[i], &q); fill_bytes (&src[i * sz], sz, leaf_id (a[i].t, &q, 5)); }
    random_partition (r, p, true);
    std::vector<Leaf> b = local_leaves (p);
    std::vector<unsigned char> dst (b.size () * sz + 1);
    p4est_transfer_fixed (p->global_first_quadrant, g0.data (), p->mpicomm, 3, dst.data (), src.data (), sz);
    for (size_t i = 0; i < b.size (); ++i) {
      p4est_quadrant_t q; leaf_to_quad (b[i], &q);
      CHK (check_bytes (&dst[i * sz], sz, leaf_id (b[i].t, &q, 5)), "payload", "data of leaf %s did not follow it", leaf_str (b[i]).c_str ());
    }
    count ("leaves_followed", (long) b.size ());
    p4est_destroy (p); p4est_connectivity_destroy (c);
  }
  int m = r.range (1, 5);
  bool split = m > 1 || r.chance (0.4);
  std::vector<Tx> tx (m);
  u64 hs = P;
  i64 n = r.pick ({ 0, 1, 3, 20, 200, 2000 });
  std::vector<i64> prev;
  for (int i = 0; i < m; ++i) {
    Tx & x = tx[i];
    x.kind = r.below (3); x.tag = 10 + i; x.salt = r.next ();
    x.size = r.pick ({ 1, 2, 4, 8, 17, 100 });
    if (x.kind == 0 && r.chance (0.06)) x.size = 0;
    if (x.kind == 0 && r.chance (0.05)) x.size = 3000;
    std::vector<i64> s = random_counts (r, n, P, r.chance (0.7)), d = random_counts (r, n, P, r.chance (0.7));
    if (i && r.chance (0.3)) s = prev;
    if (r.chance (0.1)) d = s;
    prev = d;
    x.src = offsets (s); x.dst = offsets (d);
    for (auto k : x.src) hs = hcomb (hs, k);
    for (auto k : x.dst) hs = hcomb (hs, k);
    hs = hcomb (hs, x.kind * 10000 + x.size);
    x.init (me); x.blocks ();
  }
  describe ("%lld leaves, %d transfers %s", (long long) n, m, split ? "in flight" : "blocking");
  std::vector<int> eo; for (int i = 0; i < m; ++i) eo.push_back (i);
  /* contexts may be completed in an order that differs between processes */
  Rng rl (hcomb (r.next (), me));
  for (int i = m - 1; i > 0; --i) std::swap (eo[i], eo[rl.below (i + 1)]);
  bool generic = r.chance (0.3);
  /* and begun in another order on every process: their tags tell them apart */
  std::vector<int> bo; for (int i = 0; i < m; ++i) bo.push_back (i);
  if (split && r.chance (0.5)) { for (int i = m - 1; i > 0; --i) std::swap (bo[i], bo[rl.below (i + 1)]); if (m > 1) count ("begun_in_other_order"); }
  for (int i : bo) tx[i].run_it (comm, split);
  if (split) { for (int i : eo) tx[i].end (generic); if (m > 1) count ("overlapping_transfers", m); }
  for (auto & x : tx) { x.check (me); x.release (); }
  distinct_state (hs);
}
REGISTER_PROP ("C15", prop)

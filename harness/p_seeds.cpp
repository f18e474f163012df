/* part of C05: the seeds that a leaf induces in a coarser one imply exactly its balanced refinement. */
#include "core.hpp"
static void sub_refine_to (std::vector<Leaf> & v, const Leaf & q)
{
  /* refine the leaf containing q until q is a leaf */
  for (;;) {
    size_t k = v.size ();
    for (size_t i = 0; i < v.size (); ++i) if (v[i].key () <= q.key () && q.key () < v[i].key () + leaf_span (v[i].l)) { k = i; break; }
    if (k == v.size () || v[k].l >= q.l) return;
    Leaf a = v[k];
    v.erase (v.begin () + k);
    for (int c = 0; c < NC; ++c) v.insert (v.begin () + k + c, leaf_child (a, c));
  }
}
void check_seeds (Rng & r, int n)
{
  std::vector<Leaf> base;
  Leaf root; root.t = 0; root.l = 0; root.x[0] = root.x[1] = root.x[2] = 0; root.rank = -1; root.gi = -1;
  base.push_back (root);
  for (int l = 0; l < 2; ++l) { std::vector<Leaf> n; for (auto & a : base) for (int c = 0; c < NC; ++c) n.push_back (leaf_child (a, c)); base = n; }
  sc_array_t *seeds = sc_array_new (sizeof (p4est_quadrant_t));
  for (int it = 0; it < n; ++it) {
    Leaf p = root; p.l = 2;
    for (int i = 0; i < DIM; ++i) p.x[i] = p.len () * r.range (1, 2);
    Leaf q = root; q.l = r.range (4, DIM == 2 ? 8 : 6);
    bool in = true;
    for (int i = 0; i < DIM; ++i) {
      i64 k = r.below (3) - 1;
      i64 off = r.chance (0.5) ? r.below ((i64) 1 << (q.l - 2)) : k < 0 ? ((i64) 1 << (q.l - 2)) - 1 - r.below (3) : r.below (3);
      off = std::max<i64> (0, std::min<i64> (off, ((i64) 1 << (q.l - 2)) - 1));
      q.x[i] = p.x[i] + k * p.len () + off * q.len ();
      if (k) in = false;
    }
    if (in) continue;
    for (int md = 0; md < DIM; ++md) {
      std::vector<Leaf> f = base;
      sub_refine_to (f, q);
      std::vector<Leaf> cl = balance_closure (NULL, 1, f, md);
      std::vector<Leaf> want, got;
      for (auto & a : cl) if (a.key () >= p.key () && a.key () < p.key () + leaf_span (p.l)) want.push_back (a);
      p4est_quadrant_t Q, P;
      leaf_to_quad (q, &Q); leaf_to_quad (p, &P);
      int split = p4est_balance_seeds (&Q, &P, conn_type (md), seeds);
      got.push_back (p);
      for (size_t z = 0; z < seeds->elem_count; ++z) { Leaf s = mkleaf (0, p4est_quadrant_array_index (seeds, z)); sub_refine_to (got, s); }
      got = balance_closure (NULL, 1, got, md);
      bool ok = got.size () == want.size ();
      for (size_t i = 0; ok && i < got.size (); ++i) ok = got[i].same (want[i]);
      if (!split != (want.size () == 1)) ok = false;
      CHK (ok, "seeds", "seeds of %s in %s (entities of dimension >= %d): %zu leaves instead of %zu, split %d", leaf_str (q).c_str (), leaf_str (p).c_str (), md, got.size (), want.size (), split);
      count ("seeds_judged");
      if (split) count ("seeds_split");
    }
  }
  sc_array_destroy (seeds);
}

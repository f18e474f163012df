/* The interfaces of a mesh, computed from the geometry: which faces, edges and
 * corners exist, and which leaves touch them.  Used by several monitors. */
#ifndef VH_IFMODEL_HPP
#define VH_IFMODEL_HPP
#include "core.hpp"
namespace {
struct Side
{
  int t = 0, ent = 0, hang = 0;
  std::vector<int> idx;                 /* global leaf indices, curve order */
  P3 big = {0, 0, 0};
  bool operator< (const Side & o) const { return std::tie (t, ent, hang, idx) < std::tie (o.t, o.ent, o.hang, o.idx); }
  bool operator== (const Side & o) const { return t == o.t && ent == o.ent && hang == o.hang && idx == o.idx; }
};
struct Expect
{
  std::vector<Side> s;                  /* sorted */
  int tb = 0, orient = 0;
  bool all_local = true, any_local = false, hanging_point = false;
  int calls = 0;
  long seq = -1;
};

struct Model
{
  const Geo *g; const GForest *f; int me; i64 l0, l1;
  std::map<TP, Expect> ex[3];           /* by dimension of the entity: 0 corner, 1 edge (3D), 2 face */

  bool local (int i) const { return l0 <= i && i < l1; }
  /* pattern of a point in the closed cube of a leaf */
  static Ent pattern (const Leaf & a, const P3 & x)
  {
    Ent e; e.dim = 0; e.d[0] = e.d[1] = e.d[2] = 0;
    for (int i = 0; i < DIM; ++i) {
      if (x[i] == 2 * a.x[i]) e.d[i] = -1;
      else if (x[i] == 2 * (a.x[i] + a.len ())) e.d[i] = 1;
      else e.dim++;
    }
    return e;
  }
  static int ent_index (const Ent & e)
  {
    auto & es = entities ();
    for (size_t k = 0; k < es.size (); ++k) if (es[k].d[0] == e.d[0] && es[k].d[1] == e.d[1] && (DIM == 2 || es[k].d[2] == e.d[2])) return (int) k;
    return -1;
  }
  struct Touch { int t; P3 x; int i; Ent e; };
  void touching (int t, const P3 & x, std::vector<Touch> & out) const
  {
    std::vector<TP> o; std::vector<int> c;
    out.clear ();
    g->orbit (t, x, o);
    for (auto & r : o) {
      c.clear ();
      f->containing (r.t, r.x, c);
      for (int i : c) out.push_back ({ r.t, r.x, i, pattern (f->q[i], r.x) });
    }
  }
  static int bdims (const P3 & x) { int n = 0; for (int i = 0; i < DIM; ++i) if (x[i] == 0 || x[i] == R2) ++n; return n; }
  static P3 parent_center (const Leaf & a, int ent) { return ent_center (leaf_parent (a), entities ()[ent]); }

  /* sides of a face or edge whose coarsest representative has centre (t, x) and level L */
  void sides (int kind, int t, const P3 & x, int L, std::vector<Side> & out) const
  {
    int dim = kind == 2 ? DIM - 1 : kind;
    std::vector<Touch> T;
    touching (t, x, T);
    std::map<std::tuple<int, P3, int>, Side> m;
    for (auto & u : T) {
      const Leaf & b = f->q[u.i];
      if (b.l == L && u.e.dim == dim) {
        Side s; s.t = u.t; s.ent = ent_index (u.e); s.hang = 0; s.idx.push_back (u.i); s.big = u.x;
        out.push_back (s);
      }
      else if (b.l == L + 1) {
        /* a fine leaf of which a sub-entity is part of the coarse one */
        Leaf pa = leaf_parent (b);
        Ent pe = pattern (pa, u.x);
        if (pe.dim != dim) continue;
        int k = ent_index (pe);
        P3 c = ent_center (b, entities ()[k]);
        bool on = true;                 /* the fine leaf touches the coarse entity with its own */
        for (int i = 0; i < DIM; ++i) if (pe.d[i] != 0 && c[i] != u.x[i]) on = false;
        if (!on) continue;
        auto key = std::make_tuple (u.t, u.x, k);
        Side & s = m[key];
        s.t = u.t; s.ent = k; s.hang = 1; s.big = u.x;
        s.idx.push_back (u.i);
      }
    }
    for (auto & p : m) { std::sort (p.second.idx.begin (), p.second.idx.end ()); out.push_back (p.second); }
    std::sort (out.begin (), out.end ());
  }

  void add (int dim, const TP & key, int L)
  {
    auto it = ex[dim].find (key);
    if (it != ex[dim].end ()) return;
    Expect e;
    sides (dim, key.t, key.x, L, e.s);
    finish (e, key);
    ex[dim][key] = e;
  }
  void finish (Expect & e, const TP & key)
  {
    for (auto & s : e.s) for (int i : s.idx) { if (local (i)) e.any_local = true; else e.all_local = false; }
    e.tb = bdims (key.x);
  }

  void init (const Geo & gg, const GForest & ff, int rank)
  {
    g = &gg; f = &ff; me = rank; l0 = ff.rfirst[rank]; l1 = ff.rfirst[rank + 1];
    auto & es = entities ();
    std::vector<Touch> T;
    for (i64 i = l0; i < l1; ++i) {
      const Leaf & a = f->q[i];
      for (size_t k = 0; k < es.size (); ++k) {
        P3 x = ent_center (a, es[k]);
        touching (a.t, x, T);
        int d = es[k].dim;
        if (d == DIM - 1 || d == 1) {
          int L = a.l; TP key = { -1, x };
          bool hangs = false;
          for (auto & u : T) {
            const Leaf & b = f->q[u.i];
            if (u.e.dim > d) hangs = true;
            else if (u.e.dim == d && b.l < L) { L = b.l; key = { u.t, ent_center (b, u.e) }; }
          }
          if (hangs) continue;
          TP ck = key.t < 0 ? g->canon (a.t, x) : g->canon (key.t, key.x);
          if (d == 1 && DIM == 3) {
            /* the coarse edge must not lie in a face */
            touching (ck.t, ck.x, T);
            for (auto & u : T) if (u.e.dim > d) hangs = true;
            if (hangs) continue;
          }
          add (d == DIM - 1 ? 2 : 1, ck, L);
        }
        else {
          TP ck = g->canon (a.t, x);
          if (ex[0].count (ck)) continue;
          Expect e;
          for (auto & u : T) {
            if (u.e.dim > 0) e.hanging_point = true;
            Side s; s.t = u.t; s.ent = u.e.dim == 0 ? ent_index (u.e) : -1; s.idx.push_back (u.i); s.big = u.x;
            e.s.push_back (s);
          }
          std::sort (e.s.begin (), e.s.end ());
          finish (e, ck);
          ex[0][ck] = e;
        }
      }
    }
    for (auto & p : ex[2]) if (p.second.s.size () == 2 && p.second.s[0].t >= 0) {
      Side & s = p.second.s[0];
      /* within a tree the two sides meet inside it */
      p.second.orient = p.second.tb ? g->c->tree_to_face[NF * s.t + s.ent] / NF : 0;
    }
  }
};

}
#endif

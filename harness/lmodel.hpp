/* which nodes of a leaf hang and who owns the nodes, from the geometry of the leaves */
#pragma once
#include "core.hpp"
#include "ifmodel.hpp"
namespace {
struct LModel
{
  const Geo *g; const GForest *f; Model m;
  std::map<std::tuple<int, TP>, int> owners;    /* entity -> owner */
  std::map<std::tuple<int, TP>, int> self_alt;  /* where a tree touches itself: owner by lowest edge number */

  bool lower_level_touches (const Leaf & a, int k) const
  {
    std::vector<Model::Touch> T;
    m.touching (a.t, ent_center (a, entities ()[k]), T);
    for (auto & u : T) if (f->q[u.i].l < a.l) return true;
    return false;
  }
  static bool touches_corner (const Ent & e, int cid) { for (int i = 0; i < DIM; ++i) if (e.d[i] && (e.d[i] > 0) != (bool) ((cid >> i) & 1)) return false; return true; }
  /* hanging faces and (3D) half edges of a leaf, as bit sets */
  void hanging (const Leaf & a, int & hf, int & he) const
  {
    hf = he = 0;
    if (a.l == 0) return;
    int cid = leaf_childid (a);
    auto & es = entities ();
    for (int k = 0; k < NF + NE; ++k) {
      if (!touches_corner (es[k], cid)) continue;
      if (lower_level_touches (a, k)) { if (k < NF) hf |= 1 << k; else he |= 1 << (k - NF); }
    }
  }
  static bool within (const Ent & sub, const Ent & sup) { for (int i = 0; i < DIM; ++i) if (sup.d[i] && sup.d[i] != sub.d[i]) return false; return true; }
  bool refers_to_parent (int k, int hf, int he) const
  {
    auto & es = entities ();
    for (int j = 0; j < NF + NE; ++j) {
      bool h = j < NF ? (hf >> j) & 1 : (he >> (j - NF)) & 1;
      if (h && within (es[k], es[j])) return true;
    }
    return false;
  }
  int owner (const Leaf & e, int k, int * alt = NULL)
  {
    auto & es = entities ();
    P3 c = ent_center (e, es[k]);
    TP ck = g->canon (e.t, c);
    auto key = std::make_tuple (es[k].dim, ck);
    auto it = owners.find (key);
    if (it != owners.end ()) { if (alt && self_alt.count (key)) *alt = self_alt[key]; return it->second; }
    int lo = -1;
    if (es[k].dim == 0) {
      std::vector<Model::Touch> T;
      m.touching (e.t, c, T);
      for (auto & u : T) if (lo < 0 || u.i < lo) lo = u.i;
    }
    else {
      std::vector<Side> s;
      m.sides (es[k].dim == DIM - 1 ? 2 : 1, e.t, c, e.l, s);
      for (auto & x : s) for (int i : x.idx) if (lo < 0 || i < lo) lo = i;
    }
    /* a tree meeting itself in differing faces or edges: the known finding */
    {
      std::vector<Model::Touch> T;
      m.touching (e.t, c, T);
      bool self = false; const Model::Touch * fs = NULL; int fe = 0;
      Leaf root; root.t = 0; root.l = 0; root.x[0] = root.x[1] = root.x[2] = 0;
      for (auto & u : T) {
        int te = Model::ent_index (Model::pattern (root, u.x));
        if (te < 0) continue;
        if (fs && fs->t == u.t && fe != te) self = true;
        if (!fs || std::tie (u.t, te, u.i) < std::tie (fs->t, fe, fs->i)) { if (fs && fs->t == u.t && fe != te) self = true; fs = &u; fe = te; }
      }
      if (self && fs) self_alt[key] = f->q[fs->i].rank;
    }
    int o = lo < 0 ? -1 : f->q[lo].rank;
    owners[key] = o;
    if (alt && self_alt.count (key)) *alt = self_alt[key];
    return o;
  }
};

static inline i64 node_pos (i64 L, int N, int i) { return 2 * i < N ? i : 2 * i > N ? L - (N - i) : L / 2; }
}

#include "core.hpp"

p4est_connect_type_t conn_type (int mindim)
{
#ifdef P4_TO_P8
  return mindim == 2 ? P8EST_CONNECT_FACE : mindim == 1 ? P8EST_CONNECT_EDGE : P8EST_CONNECT_CORNER;
#else
  return mindim == 1 ? P4EST_CONNECT_FACE : P4EST_CONNECT_CORNER;
#endif
}

namespace {
struct DynForest
{
  std::vector<std::map<u128, int>> m;   /* per tree: morton key -> level */
  int nt;
  bool find (int t, u128 k, u128 & key, int & l)
  {
    auto it = m[t].upper_bound (k);
    if (it == m[t].begin ()) return false;
    --it;
    if (k - it->first >= leaf_span (it->second)) return false;
    key = it->first; l = it->second;
    return true;
  }
};
void unmorton (u128 k, i64 * x)
{
  for (int i = 0; i < 3; ++i) x[i] = 0;
  for (int b = 0; b < ML; ++b) for (int i = 0; i < DIM; ++i) { x[i] |= (i64) (k & 1) << b; k >>= 1; }
}
}

std::vector<Leaf> balance_closure (const Geo * g, int nt, const std::vector<Leaf> & in, int mindim)
{
  DynForest d;
  d.nt = nt;
  d.m.resize (nt);
  std::vector<std::vector<Leaf>> byl (ML + 1);
  for (auto & a : in) { d.m[a.t][a.key ()] = a.l; byl[a.l].push_back (a); }
  std::vector<TP> orb;
  for (int l = ML; l >= 2; --l) {
    for (size_t z = 0; z < byl[l].size (); ++z) {
      Leaf a = byl[l][z];
      u128 ka; int la;
      if (!d.find (a.t, a.key (), ka, la) || la != l) continue;
      for (auto & e : entities ()) {
        if (e.dim < mindim) continue;
        P3 x = ent_center (a, e);
        if (g) g->orbit (a.t, x, orb); else orb.assign (1, TP{a.t, x});
        for (auto & o : orb) for (int mm = 0; mm < (1 << DIM); ++mm) {
          i64 c[3] = {0, 0, 0};
          bool ok = true;
          for (int i = 0; i < DIM; ++i) {
            if (o.x[i] & 1) { if ((mm >> i) & 1) { ok = false; break; } c[i] = o.x[i] >> 1; }
            else c[i] = (o.x[i] >> 1) - ((mm >> i) & 1);
            if (c[i] < 0 || c[i] >= RL) { ok = false; break; }
          }
          if (!ok) continue;
          u128 cell = morton (c), kb; int lb;
          while (d.find (o.t, cell, kb, lb) && lb < l - 1) {
            d.m[o.t].erase (kb);
            Leaf b; b.t = o.t; b.l = lb; b.rank = -1; b.gi = -1;
            unmorton (kb, b.x);
            for (int ch = 0; ch < NC; ++ch) { Leaf q = leaf_child (b, ch); d.m[o.t][q.key ()] = q.l; byl[q.l].push_back (q); }
          }
        }
      }
    }
  }
  std::vector<Leaf> out;
  for (int t = 0; t < nt; ++t) for (auto & kv : d.m[t]) { Leaf b; b.t = t; b.l = kv.second; b.rank = -1; b.gi = (i64) out.size (); unmorton (kv.first, b.x); out.push_back (b); }
  return out;
}

bool is_balanced_model (const Geo * g, const GForest & f, int mindim, std::string & why)
{
  std::vector<TP> orb;
  std::vector<int> cont;
  for (auto & a : f.q) for (auto & e : entities ()) {
    if (e.dim < mindim || a.l < 2) continue;
    P3 x = ent_center (a, e);
    if (g) g->orbit (a.t, x, orb); else orb.assign (1, TP{a.t, x});
    for (auto & o : orb) {
      f.containing (o.t, o.x, cont);
      for (int b : cont) if (f.q[b].l < a.l - 1) { why = leaf_str (a) + " next to " + leaf_str (f.q[b]); return false; }
    }
  }
  return true;
}

/* Do the trees meet like a grid wherever they meet?  Every set of tree corners
 * glued into one point is either a clique of face neighbours or a full 1x..x2
 * box of cells.  Where this fails the library's balance below full corner
 * connectivity treats trees across a corner or edge as though the trees between
 * them existed, which is balanced but not always coarsest. */
bool grid_like (const Geo & g)
{
  std::vector<TP> orb;
  for (int t = 0; t < g.nt; ++t) for (int c = 0; c < NC; ++c) {
    P3 x = {0, 0, 0};
    for (int i = 0; i < DIM; ++i) x[i] = ((c >> i) & 1) ? R2 : 0;
    g.orbit (t, x, orb);
    int n = (int) orb.size ();
    if (n <= 1) continue;
    if (n != 2 && n != 4 && n != 8 && n > 3) return false;
    /* graph of face links between these tree corners */
    std::vector<std::vector<int>> adj (n);
    for (int i = 0; i < n; ++i) for (int d = 0; d < DIM; ++d) {
      int f = 2 * d + (orb[i].x[d] != 0);
      if (g.fb[orb[i].t * NF + f]) continue;
      TP y; y.t = g.c->tree_to_tree[orb[i].t * NF + f]; y.x = g.fx[orb[i].t * NF + f].map (orb[i].x);
      int j = (int) (std::find (orb.begin (), orb.end (), y) - orb.begin ());
      if (j < n && j != i) adj[i].push_back (j);
    }
    for (auto & v : adj) { std::sort (v.begin (), v.end ()); v.erase (std::unique (v.begin (), v.end ()), v.end ()); }
    bool clique = true, cube = true;
    for (auto & v : adj) if ((int) v.size () != n - 1) clique = false;
    if (clique) continue;
    int k = n == 2 ? 1 : n == 4 ? 2 : n == 8 ? 3 : -1;
    if (k < 0) return false;
    /* hypercube of dimension k: regular of degree k, and bipartite distances match a labelling */
    for (auto & v : adj) if ((int) v.size () != k) cube = false;
    if (!cube) return false;
    std::vector<int> lab (n, -1);
    lab[0] = 0;
    std::vector<int> layer (1, 0), dist (n, -1);
    dist[0] = 0;
    for (int i = 0; i < k; ++i) lab[adj[0][i]] = 1 << i, dist[adj[0][i]] = 1, layer.push_back (adj[0][i]);
    for (size_t z = 1; z < layer.size (); ++z) for (int j : adj[layer[z]]) {
      if (dist[j] < 0) { dist[j] = dist[layer[z]] + 1; layer.push_back (j); lab[j] = 0; }
      if (dist[j] == dist[layer[z]] + 1) lab[j] |= lab[layer[z]];
      else if (dist[j] == dist[layer[z]]) return false;
    }
    if ((int) layer.size () != n) return false;
    std::set<int> u (lab.begin (), lab.end ());
    if ((int) u.size () != n) return false;
    for (int i = 0; i < n; ++i) for (int j : adj[i]) if (__builtin_popcount (lab[i] ^ lab[j]) != 1) return false;
  }
  return true;
}

/* C22: forests of columns (p6est): adaptation, balance, partition, copies, files. */
#include "core.hpp"
#ifndef P4_TO_P8
#include "p6model.hpp"
#include <p6est_communication.h>

namespace {
using namespace p6m;

void op_reset (St & s, Rng & r)
{
  size_t ds = r.chance (0.4) ? s.p->data_size : r.pick ({ 0, 8, 16, 40 });
  Cb::I ().begin (s, true, false, r.next ());
  s.user ^= 1; Cb::I ().user = s.up ();
  p6est_reset_data (s.p, ds, init_cb, s.up ());
  for (auto & c : s.M) for (auto & l : c.L) { l.pay = Cb::I ().ipay (c.q, l.z, l.l); ++Cb::I ().xinit; }
  CHK (s.p->data_size == ds && (s.p->user_data_pool != NULL) == (ds > 0), "reset-size", "data size %zu after a reset to %zu", s.p->data_size, ds);
  s.verify ("reset data");
}

void op_refine_columns (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  bool init = r.chance (0.5), rep = !init || r.chance (0.5), rec = r.chance (0.4);
  c.begin (s, init, rep, r.next ());
  int lim = r.chance (0.3) ? r.range (0, 4) : -1;
  c.deepmode = r.chance (0.15) && s.nlayers () < 400;
  c.den = s.ncols () > 150 ? 12 : (rec ? 4 : r.range (1, 4));
  c.maxl = c.deepmode ? QML : 4;
  c.pickpoint (s, r);
  if (s.nlayers () > 4000) c.den = 60;
  bool ext = rep || lim >= 0 || r.chance (0.4);
  if (ext) p6est_refine_columns_ext (s.p, rec, lim, refcol_cb, init ? init_cb : NULL, rep ? replace_cb : NULL);
  else p6est_refine_columns (s.p, rec, refcol_cb, init ? init_cb : NULL);
  std::vector<Col> out;
  std::function<void (const Col &, bool)> go = [&] (const Col & a, bool may) {
    if (may && c.colpred (a.q) && a.q.l < QML && (lim < 0 || a.q.l < lim)) { auto ch = split (a); for (auto & b : ch) go (b, rec); }
    else out.push_back (a);
  };
  for (auto & a : s.M) go (a, true);
  s.M.swap (out);
  s.verify ("refine columns");
}

void op_refine_layers (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  bool init = r.chance (0.5), rep = !init || r.chance (0.5), rec = r.chance (0.4);
  c.begin (s, init, rep, r.next ());
  int lim = r.chance (0.3) ? r.range (0, 5) : -1;
  c.deepmode = r.chance (0.2) && s.ncols () < 60;
  c.den = s.nlayers () > 2500 ? 40 : (rec ? 4 : r.range (1, 4));
  c.maxl = c.deepmode ? QML : 5;
  c.zpoint = r.chance (0.5) ? s.p->root_len - 1 : (r.chance (0.3) ? 0 : (i64) (r.next () % (u64) s.p->root_len));
  c.past = c.deepmode && r.chance (0.5);          /* keep asking at the finest level */
  bool ext = rep || lim >= 0 || r.chance (0.4);
  if (ext) p6est_refine_layers_ext (s.p, rec, lim, reflay_cb, init ? init_cb : NULL, rep ? replace_cb : NULL);
  else p6est_refine_layers (s.p, rec, reflay_cb, init ? init_cb : NULL);
  for (auto & a : s.M) {
    std::vector<Lay> out;
    std::function<void (const Lay &, bool)> go = [&] (const Lay & l, bool may) {
      if (may && c.laypred (a.q, l.z, l.l) && l.l < QML && (lim < 0 || l.l < lim)) { Lay h[2]; halve (a.q, l, h); go (h[0], rec); go (h[1], rec); }
      else out.push_back (l);
    };
    for (auto & l : a.L) go (l, true);
    a.L.swap (out);
  }
  if (c.deepmode) gcount ("deep_layer_refinements");
  s.verify ("refine layers");
}

/* merge the sibling pairs of a column for which the predicate holds */
void merge_layers (const Leaf & q, std::vector<Lay> & L, std::function<bool (i64, int)> pred, bool rec)
{
  for (;;) {
    std::vector<Lay> out; bool ch = false;
    for (size_t i = 0; i < L.size (); ++i) {
      i64 len = L[i].l <= 0 ? 0 : zlen (L[i].l);
      if (L[i].l > 0 && !(L[i].z & len) && i + 1 < L.size () && L[i + 1].l == L[i].l && pred (L[i].z, L[i].l - 1)) { out.push_back (unite (q, L[i], L[i + 1])); ++i; ch = true; }
      else out.push_back (L[i]);
    }
    L.swap (out);
    if (!ch || !rec) break;
  }
}
Col join (const Col * a)
{
  Col p; p.q = leaf_parent (a[0].q); p.q.rank = a[0].q.rank;
  size_t at[4] = { 0, 0, 0, 0 };
  while (at[0] < a[0].L.size ()) {
    int l = QML; i64 z = a[0].L[at[0]].z;
    for (int j = 0; j < 4; ++j) l = std::min (l, a[j].L[at[j]].l);
    std::vector<u64> outs;
    for (int j = 0; j < 4; ++j) {
      std::vector<Lay> part;
      while (at[j] < a[j].L.size () && a[j].L[at[j]].z < z + zlen (l)) part.push_back (a[j].L[at[j]++]);
      merge_layers (a[j].q, part, [&] (i64, int ll) { return ll >= l; }, true);
      outs.push_back (part[0].pay);
    }
    p.L.push_back (made (p.q, z, l, outs));
    ++Cb::I ().xrep;
  }
  return p;
}
void op_coarsen_columns (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  bool init = r.chance (0.5), rep = !init || r.chance (0.5), rec = r.chance (0.5), orph = r.chance (0.3);
  c.begin (s, init, rep, r.next ());
  c.den = r.range (1, 3);
  if (orph || rep || r.chance (0.4)) p6est_coarsen_columns_ext (s.p, rec, orph, coacol_cb, init ? init_cb : NULL, rep ? replace_cb : NULL);
  else p6est_coarsen_columns (s.p, rec, coacol_cb, init ? init_cb : NULL);
  long merged = 0;
  for (;;) {
    std::vector<Col> out; bool ch = false;
    for (size_t i = 0; i < s.M.size (); ++i) {
      bool fam = s.M[i].q.l > 0 && leaf_childid (s.M[i].q) == 0 && i + 4 <= s.M.size ();
      Leaf par; if (fam) par = leaf_parent (s.M[i].q);
      for (int j = 0; fam && j < 4; ++j) fam = s.M[i + j].q.same (leaf_child (par, j)) && s.M[i + j].q.rank == s.M[i].q.rank;
      if (fam && c.mergepred (par)) { out.push_back (join (&s.M[i])); i += 3; ch = true; ++merged; }
      else out.push_back (s.M[i]);
    }
    s.M.swap (out);
    if (!ch || !rec) break;
  }
  gcount ("column_families_merged", merged);
  s.verify ("coarsen columns");
}
void op_coarsen_layers (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  bool init = r.chance (0.5), rep = !init || r.chance (0.5), rec = r.chance (0.5), orph = r.chance (0.3);
  c.begin (s, init, rep, r.next ());
  c.den = r.range (1, 4); c.none = r.chance (0.1);
  if (orph || rep || r.chance (0.4)) p6est_coarsen_layers_ext (s.p, rec, orph, coalay_cb, init ? init_cb : NULL, rep ? replace_cb : NULL);
  else p6est_coarsen_layers (s.p, rec, coalay_cb, init ? init_cb : NULL);
  long before = s.nlayers ();
  for (auto & a : s.M) merge_layers (a.q, a.L, [&] (i64 z, int l) { return c.zmerge (a.q, z, l); }, rec);
  gcount ("layer_pairs_merged", before - s.nlayers ());
  s.verify ("coarsen layers");
}

/* -------------------------------------------------------------- balance */
typedef std::vector<std::pair<i64, int>> Prof;
bool touch_bad (const std::pair<i64, int> & a, const std::pair<i64, int> & b, bool closed)
{
  i64 a1 = a.first + zlen (a.second), b1 = b.first + zlen (b.second), lo = std::max (a.first, b.first), hi = std::min (a1, b1);
  return (closed ? lo <= hi : lo < hi) && std::abs (a.second - b.second) > 1;
}
/* marks the layers of a that are too coarse beside b */
void mark (const Prof & a, const Prof & b, bool closed, std::vector<char> & m, bool & any)
{
  size_t j0 = 0;
  for (size_t i = 0; i < a.size (); ++i) {
    i64 z0 = a[i].first, z1 = z0 + zlen (a[i].second);
    while (j0 < b.size () && b[j0].first + zlen (b[j0].second) < z0) ++j0;
    for (size_t j = j0; j < b.size () && b[j].first <= z1 && !m[i]; ++j)
      if (b[j].second > a[i].second && touch_bad (a[i], b[j], closed)) { m[i] = 1; any = true; }
  }
}
void op_balance (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  bool init = r.chance (0.5), rep = !init || r.chance (0.5);
  p8est_connect_type_t bt = r.pick ({ P8EST_CONNECT_FACE, P8EST_CONNECT_EDGE, P8EST_CONNECT_FULL });
  int maxd = 0, mind = 1, lc = 0, lz = 0;
  for (auto & a : s.M) { lc = std::max (lc, a.q.l); for (auto & l : a.L) lz = std::max (lz, l.l); }
  if (r.chance (0.4)) {
    mind = r.range (-4, 1); maxd = mind + r.range (0, 3);
    int lc2 = std::max (lc, lz - maxd);
    if (lc2 > 4 || lc2 + mind > 5) { maxd = 0; mind = 1; }
    else gcount ("ratio_enforced");
  }
  c.begin (s, init, rep, r.next ());
  if (maxd < mind && !rep && r.chance (0.5)) p6est_balance (s.p, bt, init ? init_cb : NULL);
  else p6est_balance_ext (s.p, bt, maxd, mind, init ? init_cb : NULL, rep ? replace_cb : NULL);
  bool ratio = maxd >= mind;
  long before = s.nlayers ();
  /* thin layers make narrow columns */
  std::vector<Col> out;
  std::function<void (const Col &)> thin = [&] (const Col & a) {
    bool go = false;
    for (auto & l : a.L) go = go || l.l - a.q.l > maxd;
    if (go && a.q.l < QML) { auto ch = split (a); for (auto & b : ch) thin (b); }
    else out.push_back (a);
  };
  if (ratio) { for (auto & a : s.M) thin (a); s.M.swap (out); }
  /* horizontally */
  std::vector<Leaf> want, cols;
  for (auto & a : s.M) cols.push_back (a.q);
  if (bt == P8EST_CONNECT_FACE && !s.grid) { GForest g = gather (s.p->columns); want = g.q; gcount ("columns_taken_from_result"); }
  else want = balance_closure (&s.geo, s.geo.nt, cols, bt == P8EST_CONNECT_FACE ? 1 : 0);
  std::set<std::tuple<int, u128, int>> ws;
  for (auto & w : want) ws.insert (std::make_tuple (w.t, w.key (), w.l));
  out.clear ();
  std::function<void (const Col &)> hor = [&] (const Col & a) {
    if (ws.count (std::make_tuple (a.q.t, a.q.key (), a.q.l)) || a.q.l >= QML) out.push_back (a);
    else { auto ch = split (a); for (auto & b : ch) hor (b); }
  };
  for (auto & a : s.M) hor (a);
  s.M.swap (out);
  /* thick layers */
  auto refine_to = [&] (Col & a, std::function<bool (i64, int)> stop) {
    std::vector<Lay> nl;
    std::function<void (const Lay &)> go = [&] (const Lay & l) {
      if (stop (l.z, l.l)) nl.push_back (l);
      else { Lay h[2]; halve (a.q, l, h); go (h[0]); go (h[1]); }
    };
    for (auto & l : a.L) go (l);
    a.L.swap (nl);
  };
  if (ratio) for (auto & a : s.M) refine_to (a, [&] (i64, int l) { return l - a.q.l >= mind || l >= QML; });
  /* vertically: columns related by the nodes they refer to */
  std::vector<Leaf> L; for (auto & a : s.M) L.push_back (a.q);
  GForest g; g.q = L; for (size_t i = 0; i < g.q.size (); ++i) g.q[i].gi = i; g.index (s.geo.nt);
  NodeMap nm; nm.init (s.geo, g);
  std::map<TP, std::vector<int>> fg, cg;
  for (size_t i = 0; i < g.q.size (); ++i) for (int jy = 0; jy < 3; ++jy) for (int jx = 0; jx < 3; ++jx) {
    if (jx == 1 && jy == 1) continue;
    (jx == 1 || jy == 1 ? fg : cg)[nm.node (i, jx, jy, 2)].push_back ((int) i);
  }
  std::vector<Prof> pr (s.M.size ());
  for (size_t i = 0; i < s.M.size (); ++i) for (auto & l : s.M[i].L) pr[i].push_back ({ l.z, l.l });
  for (;;) {
    bool any = false;
    std::vector<std::vector<char>> m (pr.size ());
    for (size_t i = 0; i < pr.size (); ++i) { m[i].assign (pr[i].size (), 0); mark (pr[i], pr[i], true, m[i], any); }
    auto groups = [&] (std::map<TP, std::vector<int>> & G, bool closed) {
      for (auto & e : G) for (int a : e.second) for (int b : e.second) if (a != b) mark (pr[a], pr[b], closed, m[a], any);
    };
    groups (fg, bt != P8EST_CONNECT_FACE);
    if (bt != P8EST_CONNECT_FACE) groups (cg, bt == P8EST_CONNECT_FULL);
    if (!any) break;
    for (size_t i = 0; i < pr.size (); ++i) {
      Prof n;
      for (size_t j = 0; j < pr[i].size (); ++j) {
        if (!m[i][j]) { n.push_back (pr[i][j]); continue; }
        int l = pr[i][j].second + 1; n.push_back ({ pr[i][j].first, l }); n.push_back ({ pr[i][j].first + zlen (l), l });
      }
      pr[i].swap (n);
    }
  }
  for (size_t i = 0; i < s.M.size (); ++i) {
    std::set<std::pair<i64, int>> w (pr[i].begin (), pr[i].end ());
    refine_to (s.M[i], [&] (i64 z, int l) { return w.count ({ z, l }) > 0 || l >= QML; });
  }
  gcount (bt == P8EST_CONNECT_FACE ? "balance_face" : bt == P8EST_CONNECT_EDGE ? "balance_edge" : "balance_full");
  gcount ("layers_added_by_balance", s.nlayers () - before);
  s.verify ("balance");
  s.balanced = bt == P8EST_CONNECT_FACE ? 2 : bt == P8EST_CONNECT_EDGE ? 1 : 0;
  /* what balance means, on the library's result */
  std::vector<Adj> ad = adjacency (s.geo, g, MPI_COMM_WORLD);
  std::vector<Col> & A = s.S;
  if (A.size () == g.q.size ()) {
    long bad = 0; size_t wi = 0, wj = 0;
    auto judge = [&] (size_t i, size_t j, bool closed) {
      for (auto & x : A[i].L) for (auto & y : A[j].L) if (touch_bad ({ x.z, x.l }, { y.z, y.l }, closed)) { ++bad; wi = i; wj = j; }
    };
    for (auto & e : ad) {
      if (bt == P8EST_CONNECT_FACE) { if (e.dim == 1) judge (e.a, e.b, false); }
      else judge (e.a, e.b, e.dim == 1 || bt == P8EST_CONNECT_FULL);
    }
    CHK (bad == 0, "not-balanced", "balance type %d: %ld touching pairs of layers differ by more than one level, columns %s %s", (int) bt, bad, leaf_str (g.q[wi]).c_str (), leaf_str (g.q[wj]).c_str ());
    for (size_t i = 0; i < A.size (); ++i) for (size_t k = 0; k + 1 < A[i].L.size (); ++k) CHK (std::abs (A[i].L[k].l - A[i].L[k + 1].l) <= 1, "not-balanced", "layers on top of each other differ by %d levels", std::abs (A[i].L[k].l - A[i].L[k + 1].l));
    if (ratio) for (auto & a : A) for (auto & l : a.L) CHK (l.l - a.q.l >= mind, "ratio", "layer of level %d in a column of level %d, least difference %d", l.l, a.q.l, mind);
    gcount ("touching_columns_judged", (long) ad.size ());
  }
}

/* ------------------------------------------------------------- partition */
i64 shipped (const std::vector<i64> & a, const std::vector<i64> & b)
{
  i64 n = b.back ();
  for (size_t p = 0; p + 1 < a.size (); ++p) n -= std::max ((i64) 0, std::min (a[p + 1], b[p + 1]) - std::max (a[p], b[p]));
  return n;
}
std::vector<i64> correct_families (const St & s, const std::vector<i64> & cut)
{
  int P = run.size;
  std::vector<i64> out = cut, fam (s.M.size (), -1);
  for (size_t i = 0; i + 4 <= s.M.size (); ++i) {
    if (s.M[i].q.l == 0 || leaf_childid (s.M[i].q) != 0) continue;
    Leaf par = leaf_parent (s.M[i].q); bool ok = true;
    for (int j = 0; j < 4 && ok; ++j) ok = s.M[i + j].q.same (leaf_child (par, j));
    if (ok) for (int j = 0; j < 4; ++j) fam[i + j] = (i64) i;
  }
  for (int p = 1; p < P; ++p) {
    i64 b = cut[p];
    if (b <= 0 || b >= (i64) fam.size () || fam[b] < 0 || fam[b] == b) continue;
    i64 m = fam[b], share = 0; int best = -1;
    for (int k = 0; k < P; ++k) { i64 x = std::min (cut[k + 1], m + 4) - std::max (cut[k], m); if (x > share) { share = x; best = k; } }
    out[p] = p > best ? m + 4 : m;
  }
  return out;
}
void assign (St & s, const std::vector<i64> & cut)
{
  for (int p = 0; p < run.size; ++p) for (i64 i = cut[p]; i < cut[p + 1]; ++i) s.M[i].q.rank = p;
}
/* offsets in layers of offsets in columns */
std::vector<i64> layer_cuts (const St & s, const std::vector<i64> & cut)
{
  std::vector<i64> cum (s.M.size () + 1, 0), o;
  for (size_t i = 0; i < s.M.size (); ++i) cum[i + 1] = cum[i] + (i64) s.M[i].L.size ();
  for (i64 x : cut) o.push_back (cum[x]);
  return o;
}
std::vector<i64> cur_cuts (const St & s)
{
  std::vector<i64> n (run.size + 1, 0);
  for (auto & a : s.M) n[a.q.rank + 1]++;
  for (int p = 0; p < run.size; ++p) n[p + 1] += n[p];
  return n;
}
void op_partition (St & s, Rng & r)
{
  Cb & c = Cb::I ();
  int P = run.size;
  i64 N = (i64) s.M.size ();
  c.begin (s, false, false, r.next ());
  std::vector<i64> old = cur_cuts (s), cut (P + 1, 0);
  std::vector<i64> oldl = layer_cuts (s, old);
  int mode = r.below (3);
  i64 ret;
  const char *nm;
  if (mode < 2) {
    bool wf = r.chance (0.6), pfc = r.chance (0.4);
    c.wkind = r.below (5);
    if (!pfc && r.chance (0.5)) ret = p6est_partition (s.p, wf ? weight_cb : NULL), nm = "partition";
    else ret = p6est_partition_ext (s.p, pfc, wf ? weight_cb : NULL), nm = pfc ? "partition for coarsening" : "partition";
    std::vector<u64> cum (N + 1, 0);
    for (i64 i = 0; i < N; ++i) { u64 w = 0; for (auto & l : s.M[i].L) w += wf ? (u64) c.weight (s.M[i].q, l.z, l.l) : 1; cum[i + 1] = cum[i] + w; }
    u64 W = cum.back ();
    for (int p = 1; p < P; ++p) { u64 x = (u64) ((u128) W * p / P); cut[p] = x == 0 ? 0 : std::lower_bound (cum.begin (), cum.end (), x) - cum.begin (); }
    cut[P] = N;
    if (pfc) cut = correct_families (s, cut);
    if (W == 0 || P == 1) cut = old;
    if (wf && P > 1) CHK (allsum (c.nweight, MPI_COMM_WORLD) == s.nlayers (), "weight-calls", "weight callback called %lld times for %ld layers", (long long) allsum (c.nweight, MPI_COMM_WORLD), s.nlayers ());
    gcount (pfc ? "partitions_for_coarsening" : "partitions");
  } else {
    std::vector<i64> n = random_counts (r, N, P, r.chance (0.7));
    for (int p = 0; p < P; ++p) cut[p + 1] = cut[p] + n[p];
    std::vector<i64> lc = layer_cuts (s, cut);
    /* an arbitrary partition of the layers, corrected to respect columns */
    bool corr = r.chance (0.5), fc = r.chance (0.4);
    std::vector<p4est_locidx_t> nl (P), ncol (P), back (P);
    if (corr) {
      std::vector<i64> m = random_counts (r, s.nlayers (), P, r.chance (0.7)), arb (P + 1, 0);
      for (int p = 0; p < P; ++p) { arb[p + 1] = arb[p] + m[p]; nl[p] = (p4est_locidx_t) m[p]; }
      p6est_partition_correct (s.p, nl.data ());
      std::vector<i64> all (N + 1); for (i64 i = 0; i <= N; ++i) all[i] = i;
      std::vector<i64> cum = layer_cuts (s, all);
      for (int p = 0; p <= P; ++p) cut[p] = std::lower_bound (cum.begin (), cum.end (), arb[p]) - cum.begin ();
      lc = layer_cuts (s, cut);
      for (int p = 0; p < P; ++p) CHK (nl[p] == lc[p + 1] - lc[p], "correct", "rank %d: %d layers after correction, expected %lld (from %lld)", p, nl[p], (long long) (lc[p + 1] - lc[p]), (long long) m[p]);
      gcount ("partitions_corrected");
    }
    for (int p = 0; p < P; ++p) nl[p] = (p4est_locidx_t) (lc[p + 1] - lc[p]);
    if (r.chance (0.5)) {
      p6est_partition_to_p4est_partition (s.p, nl.data (), ncol.data ());
      for (int p = 0; p < P; ++p) CHK (ncol[p] == cut[p + 1] - cut[p], "to-columns", "rank %d: %d columns of %d layers, expected %lld", p, ncol[p], nl[p], (long long) (cut[p + 1] - cut[p]));
      for (int p = 0; p < P; ++p) ncol[p] = (p4est_locidx_t) (cut[p + 1] - cut[p]), back[p] = -77;
      p4est_partition_to_p6est_partition (s.p, ncol.data (), back.data ());
      for (int p = 0; p < P; ++p) CHK (back[p] == lc[p + 1] - lc[p] && ncol[p] == cut[p + 1] - cut[p], "to-layers", "rank %d: %d layers in %lld columns, expected %lld", p, back[p], (long long) (cut[p + 1] - cut[p]), (long long) (lc[p + 1] - lc[p]));
      gcount ("partitions_converted");
    }
    if (fc) {
      cut = correct_families (s, cut); lc = layer_cuts (s, cut);
      p6est_partition_for_coarsening (s.p, nl.data ());
      for (int p = 0; p < P; ++p) CHK (nl[p] == lc[p + 1] - lc[p], "for-coarsening", "rank %d: corrected to %d layers, expected %lld", p, nl[p], (long long) (lc[p + 1] - lc[p]));
      for (int p = 0; p < P; ++p) nl[p] = (p4est_locidx_t) (lc[p + 1] - lc[p]);
    }
    ret = p6est_partition_given (s.p, nl.data ()); nm = "partition given";
    gcount ("partitions_given");
  }
  assign (s, cut);
  i64 sh = shipped (oldl, layer_cuts (s, cut));
  CHK (ret == sh, "shipped", "%s returned %lld, %lld layers changed process", nm, (long long) ret, (long long) sh);
  gcount ("layers_shipped", sh);
  s.verify (nm);
}

/* ------------------------------------------------------------ copy, files */
void op_copy (St & s, Rng & r)
{
  bool cd = r.chance (0.7), dup = r.chance (0.4), ext = dup || r.chance (0.3);
  size_t ds = s.p->data_size;
  p6est_t *u = ext ? p6est_copy_ext (s.p, cd, dup) : p6est_copy (s.p, cd);
  CHK (u->data_size == (cd ? ds : 0) && (u->user_data_pool != NULL) == (u->data_size > 0), "copy-size", "copy has data size %zu, pool %p", u->data_size, (void *) u->user_data_pool);
  CHK (u->user_pointer == s.up () && u->connectivity == s.conn && u->root_len == s.p->root_len, "copy-members", "user pointer, connectivity or height");
  int cmp; MPI_Comm_compare (u->mpicomm, s.p->mpicomm, &cmp);
  CHK (dup ? cmp == MPI_CONGRUENT && u->mpicomm_owned : cmp == MPI_IDENT, "copy-communicator", "duplicate %d, comparison %d", dup, cmp);
  p6est_t *orig = s.p;
  std::vector<Col> keep = s.M;
  s.p = u;
  bool stale = ds > 0 && u->data_size == 0;
  s.nopay = stale;
  s.verify ("copy");
  s.nopay = false;
  /* change one, observe the other, destroy one */
  bool takecopy = r.chance (0.5);
  /* a copy that shares the communicator cannot outlive its owner */
  if (orig->mpicomm_owned && !dup) takecopy = false;
  if (stale) op_reset (s, r);
  s.p = takecopy ? orig : u;
  std::vector<Col> mcopy = s.M;         /* model of the copy */
  if (takecopy) s.M = keep;
  s.user = (int) ((char *) s.p->user_pointer - s.ptr);
  random_op (s, r, 6);
  std::vector<Col> mchg = s.M;
  p6est_destroy (s.p);
  s.p = takecopy ? u : orig;
  s.M = takecopy ? mcopy : keep;
  s.user = (int) ((char *) s.p->user_pointer - s.ptr);
  s.verify ("survivor of a copy");
  gcount ("copies");
  (void) mchg;
}
void op_saveload (St & s, Rng & r)
{
  std::string fn = scratch ("columns");
  size_t ds = s.p->data_size;
  bool sd = r.chance (0.7), sp = r.chance (0.6), ext = !sp || r.chance (0.5);
  unsigned cs = p6est_checksum (s.p);
  if (ext) p6est_save_ext (fn.c_str (), s.p, sd, sp); else p6est_save (fn.c_str (), s.p, sd);
  bool hasdata = sd && ds > 0;
  s.verify ("save");
  /* read back on all processes, and on one */
  for (int k = 0; k < 2; ++k) {
    bool self = k == 1;
    if (self && !r.chance (0.5)) continue;
    int lm = r.below (3);               /* data: as saved, none, other size not loaded */
    size_t nds = lm == 0 && hasdata ? ds : lm == 2 ? 16 : 0;
    bool ld = lm == 0 && (hasdata || r.chance (0.5));
    if (lm == 1 && r.chance (0.5)) ld = true;     /* ignored without a data size */
    bool same = !self && sp;
    bool aut = !same || r.chance (0.3), bh = r.chance (0.4);
    p6est_connectivity_t *c2 = NULL;
    p6est_t *u = same && !aut && !bh && r.chance (0.5)
      ? p6est_load (fn.c_str (), MPI_COMM_WORLD, nds, ld, s.up (), &c2)
      : p6est_load_ext (fn.c_str (), self ? MPI_COMM_SELF : MPI_COMM_WORLD, nds, ld, aut, bh, s.up (), &c2);
    St v (s.geo); v.conn = c2; v.p = u; v.M = s.M; v.grid = s.grid; v.user = s.user;
    bool payok = nds > 0 && ld;
    v.nopay = !payok;
    v.selfc = self;
    i64 N = (i64) v.M.size ();
    if (self) for (auto & a : v.M) a.q.rank = 0;
    else if (aut) { std::vector<i64> cut (run.size + 1); for (int p = 0; p <= run.size; ++p) cut[p] = (i64) ((u128) N * p / run.size); assign (v, cut); }
    CHK (u->root_len == s.p->root_len, "load-height", "height %lld after loading, saved %lld", (long long) u->root_len, (long long) s.p->root_len);
    CHK (u->data_size == nds && u->user_pointer == s.up () && u->connectivity == c2, "load-members", "data size %zu, requested %zu", u->data_size, nds);
    CHK (p4est_connectivity_is_equivalent (c2->conn4, s.conn->conn4) && (c2->top_vertices != NULL) == (s.conn->top_vertices != NULL), "load-connectivity", "connectivity changed");
    if (c2->top_vertices && s.conn->top_vertices) CHK (!memcmp (c2->top_vertices, s.conn->top_vertices, 3 * sizeof (double) * s.conn->conn4->num_vertices), "load-connectivity", "top vertices changed");
    else if (!c2->top_vertices && !s.conn->top_vertices) CHK (!memcmp (c2->height, s.conn->height, 3 * sizeof (double)), "load-connectivity", "height changed");
    Cb::I ().begin (v, false, false, 0);
    v.verify (self ? "load on one process" : "load");
    unsigned c3 = p6est_checksum (u);
    if (run.rank == 0) CHK (c3 == cs, "load-checksum", "%08x saved, %08x loaded", cs, c3);
    if (!self) {
      /* the loaded object lives on */
      if (v.nopay) { v.nopay = false; op_reset (v, r); }
      random_op (v, r, 6);
    }
    p6est_destroy (u);
    p6est_connectivity_destroy (c2);
    gcount (self ? "loads_on_one_process" : "loads");
  }
  MPI_Barrier (MPI_COMM_WORLD);
  if (run.rank == 0) remove (fn.c_str ());
}
void op_geometry (St & s, Rng & r)
{
  p4est_connectivity_t *c = s.conn->conn4;
  if (c->num_vertices <= 0) return;
  for (int k = 0; k < 20; ++k) {
    int t = r.below (c->num_trees);
    double v[24], w[3];
    p6est_tree_get_vertices (s.conn, t, v);
    for (int i = 0; i < 8; ++i) {
      p4est_topidx_t n = c->tree_to_vertex[4 * t + (i & 3)];
      for (int d = 0; d < 3; ++d) {
        double e = i < 4 ? c->vertices[3 * n + d] : s.conn->top_vertices ? s.conn->top_vertices[3 * n + d] : c->vertices[3 * n + d] + s.conn->height[d];
        CHK (v[3 * i + d] == e, "tree-vertices", "tree %d vertex %d: %g, expected %g", t, i, v[3 * i + d], e);
      }
    }
    i64 x[3]; for (int d = 0; d < 3; ++d) x[d] = r.chance (0.3) ? (r.chance (0.5) ? 0 : RL) : (i64) (r.next () % (u64) (RL + 1));
    p6est_qcoord_to_vertex (s.conn, t, x[0], x[1], x[2], w);
    for (int d = 0; d < 3; ++d) {
      double e = 0, mg = 0;
      for (int i = 0; i < 8; ++i) {
        double f = 1; for (int b = 0; b < 3; ++b) { double q = (double) x[b] / RL; f *= (i >> b & 1) ? q : 1 - q; }
        e += f * v[3 * i + d]; mg = std::max (mg, fabs (v[3 * i + d]));
      }
      CHK (fabs (e - w[d]) <= 1e-12 * (1 + mg), "vertex-map", "tree %d at %lld %lld %lld: coordinate %d is %.17g, expected %.17g", t, (long long) x[0], (long long) x[1], (long long) x[2], d, w[d], e);
    }
    count ("points_mapped");
  }
}
void op_checksum (St & s, Rng &)
{
  unsigned cs = p6est_checksum (s.p), cc = p4est_checksum (s.p->columns);
  u64 a = 1, b = 0, n = 0;
  auto byte = [&] (unsigned v) { a = (a + v) % 65521; b = (b + a) % 65521; ++n; };
  for (auto & c : s.S) for (auto & l : c.L) { for (int k = 3; k >= 0; --k) byte ((unsigned) (l.z >> (8 * k)) & 255); for (int k = 3; k >= 0; --k) byte (((unsigned) l.l >> (8 * k)) & 255); }
  /* combination of two Adler sums */
  u64 A1 = cc & 0xffff, B1 = cc >> 16, A = (A1 + a + 65520) % 65521, B = ((n % 65521) * A1 + B1 + b + 65521 - n % 65521) % 65521;
  unsigned ref = (unsigned) (B << 16 | A);
  if (run.rank == 0) CHK (cs == ref, "checksum", "%08x, reference %08x", cs, ref);
  gcount ("checksums");
}
}

namespace p6m {
void random_op (St & s, Rng & r, int kinds)
{
  switch (r.below (kinds)) {
  case 0: op_refine_columns (s, r); break;
  case 1: op_refine_layers (s, r); break;
  case 2: op_coarsen_columns (s, r); break;
  case 3: op_coarsen_layers (s, r); break;
  case 4: op_partition (s, r); break;
  case 5: op_balance (s, r); break;
  case 6: op_copy (s, r); break;
  case 7: op_saveload (s, r); break;
  case 8: op_reset (s, r); break;
  case 9: op_geometry (s, r); break;
  default: op_checksum (s, r); break;
  }
}
void apply_balance (St & s, Rng & r) { op_balance (s, r); }
}

/* other communicators, own ones, and finally only the processes that have columns */
static void communicators (St & s, Rng & r)
{
  MPI_Comm extra; MPI_Comm_dup (MPI_COMM_WORLD, &extra);
  auto check = [&] (const char *what, MPI_Comm want, bool ident) {
    int a, b; MPI_Comm_compare (s.p->mpicomm, want, &a); MPI_Comm_compare (s.p->columns->mpicomm, s.p->mpicomm, &b);
    CHK (ident ? a == MPI_IDENT : a == MPI_CONGRUENT, "parallel-env", "%s: comparison of the communicators is %d", what, a);
    CHK (b == MPI_IDENT || b == MPI_CONGRUENT, "parallel-env", "%s: columns have another communicator (%d)", what, b);
    CHK (s.p->columns->mpirank == s.p->mpirank && s.p->columns->mpisize == s.p->mpisize && !p6est_comm_parallel_env_is_null (s.p), "parallel-env", "%s: rank %d of %d, columns %d of %d", what, s.p->mpirank, s.p->mpisize, s.p->columns->mpirank, s.p->columns->mpisize);
  };
  auto work = [&] (const char *what) {
    /* collective calls on all communicators of the forest */
    unsigned c = p6est_checksum (s.p); (void) c;
    int P = s.p->mpisize;
    std::vector<i64> at (1, 0); for (int k = 1; k < P; ++k) at.push_back (r.below ((int) s.M.size () + 1)); std::sort (at.begin (), at.end ()); at.push_back ((i64) s.M.size ());
    std::vector<p4est_locidx_t> nl (P, 0);
    for (int k = 0; k < P; ++k) for (i64 i = at[k]; i < at[k + 1]; ++i) { nl[k] += (p4est_locidx_t) s.M[i].L.size (); s.M[i].q.rank = k; }
    p6est_partition_given (s.p, nl.data ());
    s.verify (what);
  };
  if (r.chance (.5)) {
    bool dup = s.p->mpicomm_owned || r.chance (.7);
    p6est_t *u = p6est_copy_ext (s.p, 1, dup);
    p6est_destroy (s.p); s.p = u;
    check ("copy", MPI_COMM_WORLD, !dup);
  }
  bool onextra = false;
  for (int k = r.range (0, 3); k > 0; --k) {
    if (!s.p->mpicomm_owned && r.chance (.5)) { p6est_comm_parallel_env_duplicate (s.p); check ("duplicate", MPI_COMM_WORLD, false); onextra = false; }
    else { onextra = r.chance (.5); p6est_comm_parallel_env_replace (s.p, onextra ? extra : MPI_COMM_WORLD); check ("replace", onextra ? extra : MPI_COMM_WORLD, true); }
    p6est_comm_parallel_env_get_info (s.p);
    if (r.chance (.6)) work ("communicator");
    gcount ("communicators");
  }
  if (onextra) { p6est_comm_parallel_env_replace (s.p, MPI_COMM_WORLD); check ("replace", MPI_COMM_WORLD, true); }
  /* the forest no longer uses the communicator we gave it */
  MPI_Comm_free (&extra);
  work ("own communicator");
  if (allmax (run.nfail_case, MPI_COMM_WORLD) || r.chance (.3)) return;
  int P = s.p->mpisize;
  std::vector<long> nc (P, 0); for (auto & c : s.M) ++nc[c.q.rank];
  bool ext = r.chance (.6), begin = r.chance (.5), askranks = r.chance (.8);
  std::set<int> add; if (ext) for (int k = 0; k < P; ++k) if (r.chance (.35)) add.insert (k);
  std::vector<int> ne, ae, want, av (add.begin (), add.end ());
  for (int k = 0; k < P; ++k) { if (nc[k]) ne.push_back (k); else if (add.count (k)) ae.push_back (k); }
  if (begin && ext) { want = ae; want.insert (want.end (), ne.begin (), ne.end ()); } else { want = ne; want.insert (want.end (), ae.begin (), ae.end ()); }
  bool same = (int) ne.size () == P;    /* nobody is empty, nothing to do */
  int exists, *ranks = NULL, garbage = 77; if (askranks && r.chance (.5)) ranks = &garbage;
  unsigned sum = p6est_checksum (s.p);
  std::vector<i64> gl (s.p->global_first_layer, s.p->global_first_layer + P + 1);
  if (ext) {
    MPI_Group world, grp; MPI_Comm_group (s.p->mpicomm, &world); MPI_Group_incl (world, (int) av.size (), av.data (), &grp);
    exists = p6est_comm_parallel_env_reduce_ext (&s.p, grp, begin, askranks ? &ranks : NULL);
    if (grp != MPI_GROUP_EMPTY) MPI_Group_free (&grp);
    MPI_Group_free (&world);
  } else { exists = p6est_comm_parallel_env_reduce (&s.p); ranks = NULL; askranks = false; }
  bool mine = std::find (want.begin (), want.end (), run.rank) != want.end ();
  CHK (!!exists == mine && (s.p != NULL) == mine, "env-reduce", "process %d: forest %s after the reduction", run.rank, s.p ? "exists" : "is gone");
  if (!s.p) CHK (!ranks, "env-reduce", "rank map without forest");
  if (s.p) {
    CHK (s.p->mpisize == (int) want.size () && want[s.p->mpirank] == run.rank, "env-reduce", "rank %d of %d, expected %zu processes", s.p->mpirank, s.p->mpisize, want.size ());
    if (same && askranks) CHK (!ranks, "env-reduce", "rank map without reduction");
    if (same && ranks == &garbage) ranks = NULL;
    if (ranks) for (size_t k = 0; k < want.size (); ++k) CHK (ranks[k] == want[k], "env-reduce", "rank map says %d for %zu, expected %d", ranks[k], k, want[k]);
    if (askranks && !same) CHK (ranks != NULL, "env-reduce", "no rank map");
    check ("reduce", s.p->mpicomm, true);
    if (!run.nfail_case) {
      CHK (p6est_checksum (s.p) == sum, "env-reduce", "the checksum changes");
      for (size_t k = 0; k < want.size (); ++k) { i64 d = s.p->global_first_layer[k + 1] - s.p->global_first_layer[k]; CHK (d == gl[want[k] + 1] - gl[want[k]], "env-reduce", "process %zu has %lld layers", k, (long long) d); }
      std::vector<int> inv (P, -1); for (size_t k = 0; k < want.size (); ++k) inv[want[k]] = (int) k;
      for (auto & c : s.M) c.q.rank = inv[c.q.rank];
      s.verify ("reduce");
      work ("reduced");
      if (!same) {
        /* a communicator of the caller's in place of the reduced one */
        MPI_Comm other; MPI_Comm_dup (s.p->mpicomm, &other);
        p6est_comm_parallel_env_replace (s.p, other); check ("replace", other, true); work ("replaced");
        p6est_destroy (s.p); s.p = NULL;
        MPI_Comm_free (&other);
      }
    }
    count ("reduced_forests");
  }
  P4EST_FREE (ranks);
}

static void prop (Rng & r)
{
  p4est_connectivity_t *c4 = NULL;
  St s = create (r, c4, true);
  if (!s.p) return;
  int n = r.range (4, 9);
  for (int k = 0; k < n; ++k) {

    random_op (s, r, 11);
    if (allmax (run.nfail_case, MPI_COMM_WORLD)) break;
  }
  if (r.chance (.25) && !allmax (run.nfail_case, MPI_COMM_WORLD)) communicators (s, r);
  destroy (s, c4);
}
REGISTER_PROP ("C22", prop)
#endif

#include "core.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <sc.h>

Run run;

void vfail (const char *file, int line, const char *key, const char *fmt, ...)
{
  char msg[1500];
  va_list ap;
  if (run.borrowed && strncmp (key, "leak-", 5) && strncmp (key, "mpi-", 4)) return;
  va_start (ap, fmt);
  vsnprintf (msg, sizeof (msg), fmt, ap);
  va_end (ap);
  const bool soft = key[0] == '~';      /* candidate for a listed finding: reported, does not end the batch */
  if (soft) { key++; static std::map<std::string, int> seen; if (seen[key]++ >= 2) return; }
  else run.nfail_total++;
  if (soft || run.nfail_case++ < 5) {
    const char *b = strrchr (file, '/');
    fprintf (stderr, "VHFAIL prop=%s dim=%d case=%ld rank=%d/%d key=%s at %s:%d: %s\n", run.prop.c_str (), DIM, run.caseno,
             run.rank, run.size, key, b ? b + 1 : file, line, msg);
    if (run.viol == nullptr && !run.outprefix.empty ()) {
      run.viol = fopen ((run.outprefix + ".viol." + std::to_string (run.rank)).c_str (), "a");
    }
    if (run.viol) {
      std::string m;
      for (char *p = msg; *p; ++p) { if (*p == '"' || *p == '\\') m += '\''; else if (*p == '\n') m += ' '; else m += *p; }
      fprintf (run.viol, "{\"case\": %ld, \"rank\": %d, \"size\": %d, \"dim\": %d, \"key\": \"%s\", \"where\": \"%s:%d\", \"msg\": \"%s\", \"desc\": \"%s\"}\n",
               run.caseno, run.rank, run.size, DIM, key, b ? b + 1 : file, line, m.c_str (), run.desc.c_str ());
      fflush (run.viol);
    }
  }
}

void describe (const char *fmt, ...)
{
  char msg[600];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (msg, sizeof (msg), fmt, ap);
  va_end (ap);
  if (!run.desc.empty ()) run.desc += "; ";
  run.desc += msg;
  if (getenv ("VH_TRACE") && run.rank == 0) fprintf (stderr, "case %ld: %s\n", run.caseno, msg);
}

void distinct_state (u64 h) { if (run.rank == 0) { run.distinct.insert (h); run.judged++; } }

std::string scratch (const char *leaf)
{
  return run.tmpdir + "/" + leaf;
}

i64 allsum (i64 v, MPI_Comm comm) { i64 o; PMPI_Allreduce (&v, &o, 1, MPI_INT64_T, MPI_SUM, comm); return o; }
i64 allmax (i64 v, MPI_Comm comm) { i64 o; PMPI_Allreduce (&v, &o, 1, MPI_INT64_T, MPI_MAX, comm); return o; }

/* ---------------------------------------------------------------- geometry */

static int det3 (const Xf & a)
{
  int m[3][3] = {{0}};
  for (int i = 0; i < DIM; ++i) m[a.to[i]][i] = a.sg[i];
  if (DIM == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0];
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
    + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}

static void tang (int f, int *ax)
{
  int k = 0;
  for (int i = 0; i < DIM; ++i) if (i != f / 2) ax[k++] = i;
}

/* map from lower face lo to higher face hi */
static Xf xf_lohi (int lo, int hi, int o)
{
  int ul[2], uh[2];
  tang (lo, ul);
  tang (hi, uh);
  for (int swap = 0; swap <= (DIM == 3); ++swap) {
    Xf x;
    int outl = (lo & 1) ? 1 : -1, inh = (hi & 1) ? -1 : 1;
    x.to[lo / 2] = hi / 2;
    x.sg[lo / 2] = outl * inh;
    /* at x_lo = side_lo, y_hi = side_hi */
    x.off[hi / 2] = ((hi & 1) ? R2 : 0) - x.sg[lo / 2] * ((lo & 1) ? R2 : 0);
    for (int i = 0; i < DIM - 1; ++i) {
      int j = swap ? 1 - i : i;
      int flip = (o >> j) & 1;          /* image of corner 0 has bit j of o along axis j of the higher face */
      x.to[ul[i]] = uh[j];
      x.sg[ul[i]] = flip ? -1 : 1;
      x.off[uh[j]] = flip ? R2 : 0;
    }
    if (DIM == 2 || det3 (x) == 1) return x;
  }
  return Xf ();
}

Xf xf_inverse (const Xf & a)
{
  Xf b;
  for (int i = 0; i < DIM; ++i) {
    b.to[a.to[i]] = i;
    b.sg[a.to[i]] = a.sg[i];
    b.off[i] = -a.sg[i] * a.off[a.to[i]];
  }
  return b;
}

Xf face_xf (int f, int nf, int o)
{
  if (f <= nf) return xf_lohi (f, nf, o);
  return xf_inverse (xf_lohi (nf, f, o));
}

int ent_face0, ent_edge0, ent_corner0;
int edge_axis (int e) { return e / 4; }

const std::vector<Ent> & entities ()
{
  static std::vector<Ent> v;
  if (v.empty ()) {
    ent_face0 = 0;
    for (int f = 0; f < NF; ++f) {
      Ent e; e.dim = DIM - 1; e.d[0] = e.d[1] = e.d[2] = 0; e.d[f / 2] = (f & 1) ? 1 : -1; v.push_back (e);
    }
    ent_edge0 = (int) v.size ();
    for (int k = 0; k < NE; ++k) {
      Ent e; e.dim = 1; e.d[0] = e.d[1] = e.d[2] = 0;
      int j = 0;
      for (int i = 0; i < 3; ++i) if (i != k / 4) { e.d[i] = ((k >> j) & 1) ? 1 : -1; ++j; }
      v.push_back (e);
    }
    ent_corner0 = (int) v.size ();
    for (int c = 0; c < NC; ++c) {
      Ent e; e.dim = 0; e.d[2] = 0;
      for (int i = 0; i < DIM; ++i) e.d[i] = ((c >> i) & 1) ? 1 : -1;
      v.push_back (e);
    }
  }
  return v;
}

P3 ent_center (const Leaf & a, const Ent & e)
{
  P3 p = {0, 0, 0};
  i64 h = a.len ();
  for (int i = 0; i < DIM; ++i) p[i] = 2 * a.x[i] + h + e.d[i] * h;
  return p;
}

void Geo::init (p4est_connectivity_t * conn)
{
  c = conn;
  nt = conn->num_trees;
  fx.resize (nt * NF);
  fb.assign (nt * NF, 0);
  for (int t = 0; t < nt; ++t)
    for (int f = 0; f < NF; ++f) {
      int u = conn->tree_to_tree[t * NF + f], k = conn->tree_to_face[t * NF + f];
      int nf = k % NF, o = k / NF;
      if (u == t && nf == f) { fb[t * NF + f] = 1; continue; }
      fx[t * NF + f] = face_xf (f, nf, o);
    }
  entities ();
}

void Geo::orbit (int t0, const P3 & x0, std::vector<TP> & out) const
{
  out.clear ();
  out.push_back (TP{t0, x0});
  for (size_t k = 0; k < out.size (); ++k) {
    const int t = out[k].t;
    const P3 x = out[k].x;
    int side[3], nb = 0;
    for (int i = 0; i < DIM; ++i) { side[i] = x[i] == 0 ? -1 : x[i] == R2 ? 1 : 0; nb += side[i] != 0; }
    if (!nb) continue;
    auto add = [&] (int nt_, const P3 & y) {
      TP p{nt_, y};
      if (std::find (out.begin (), out.end (), p) == out.end ()) out.push_back (p);
    };
    for (int i = 0; i < DIM; ++i) if (side[i]) {
      int f = 2 * i + (side[i] > 0);
      if (fb[t * NF + f]) continue;
      add (c->tree_to_tree[t * NF + f], fx[t * NF + f].map (x));
    }
#ifdef P4_TO_P8
    if (nb >= 2 && c->num_edges > 0) {
      for (int e = 0; e < NE; ++e) {
        const Ent & en = entities ()[ent_edge0 + e];
        bool on = true;
        for (int i = 0; i < 3; ++i) if (en.d[i] && en.d[i] != side[i]) on = false;
        if (!on) continue;
        int g = c->tree_to_edge[t * NE + e];
        if (g < 0) continue;
        i64 along = x[e / 4];
        for (int a = c->ett_offset[g]; a < c->ett_offset[g + 1]; ++a) {
          if (c->edge_to_tree[a] != t || c->edge_to_edge[a] % 12 != e) continue;
          int fl = c->edge_to_edge[a] / 12;
          for (int b = c->ett_offset[g]; b < c->ett_offset[g + 1]; ++b) {
            if (b == a) continue;
            int ne = c->edge_to_edge[b] % 12, nfl = c->edge_to_edge[b] / 12;
            const Ent & nen = entities ()[ent_edge0 + ne];
            P3 y;
            for (int i = 0; i < 3; ++i) y[i] = nen.d[i] > 0 ? R2 : 0;
            y[ne / 4] = fl == nfl ? along : R2 - along;
            add (c->edge_to_tree[b], y);
          }
        }
      }
    }
#endif
    if (nb == DIM && c->num_corners > 0) {
      int cc = 0;
      for (int i = 0; i < DIM; ++i) if (side[i] > 0) cc |= 1 << i;
      int g = c->tree_to_corner[t * NC + cc];
      if (g >= 0) {
        for (int b = c->ctt_offset[g]; b < c->ctt_offset[g + 1]; ++b) {
          int nc = c->corner_to_corner[b];
          P3 y = {0, 0, 0};
          for (int i = 0; i < DIM; ++i) y[i] = ((nc >> i) & 1) ? R2 : 0;
          add (c->corner_to_tree[b], y);
        }
      }
    }
  }
  std::sort (out.begin (), out.end ());
}

/* Do the explicit tables contain every identification that the face gluings
 * imply beyond direct face neighbours?  (Required by the documentation.) */
bool conn_oracle_ok (const Geo & g)
{
  p4est_connectivity_t *c = g.c;
  std::vector<TP> orb;
  for (int t = 0; t < g.nt; ++t) {
    Leaf root; root.t = t; root.l = 0; root.x[0] = root.x[1] = root.x[2] = 0; root.rank = 0; root.gi = 0;
    for (size_t k = ent_edge0; k < entities ().size (); ++k) {
      const Ent & e = entities ()[k];
      P3 x = ent_center (root, e);
      std::vector<P3> xs (1, x);
      if (e.dim == 1) { P3 y = x; y[(k - ent_edge0) / 4] = 1; xs[0] = y; }
      g.orbit (t, xs[0], orb);
      std::set<TP> known;
      known.insert (TP{t, xs[0]});
      /* two points on the same tree edge identified: reversed gluing, degenerate */
      for (int i = 0; i < DIM; ++i) if (e.d[i]) {
        int f = 2 * i + (e.d[i] > 0);
        if (!g.fb[t * NF + f]) known.insert (TP{(int) c->tree_to_tree[t * NF + f], g.fx[t * NF + f].map (xs[0])});
      }
#ifdef P4_TO_P8
      if (c->num_edges > 0) for (int ed = 0; ed < NE; ++ed) {
        const Ent & en = entities ()[ent_edge0 + ed];
        bool on = true;
        for (int i = 0; i < 3; ++i) if (en.d[i] && en.d[i] != e.d[i]) on = false;
        if (!on) continue;
        int gr = c->tree_to_edge[t * NE + ed];
        if (gr < 0) continue;
        for (int a = c->ett_offset[gr]; a < c->ett_offset[gr + 1]; ++a) {
          if (c->edge_to_tree[a] != t || c->edge_to_edge[a] % 12 != ed) continue;
          for (int b = c->ett_offset[gr]; b < c->ett_offset[gr + 1]; ++b) {
            int ne = c->edge_to_edge[b] % 12;
            const Ent & nen = entities ()[ent_edge0 + ne];
            P3 y;
            for (int i = 0; i < 3; ++i) y[i] = nen.d[i] > 0 ? R2 : 0;
            y[ne / 4] = c->edge_to_edge[a] / 12 == c->edge_to_edge[b] / 12 ? xs[0][ed / 4] : R2 - xs[0][ed / 4];
            known.insert (TP{(int) c->edge_to_tree[b], y});
          }
        }
      }
#endif
      if (e.dim == 0 && c->num_corners > 0) {
        int gr = c->tree_to_corner[t * NC + (int) k - ent_corner0];
        if (gr >= 0) for (int b = c->ctt_offset[gr]; b < c->ctt_offset[gr + 1]; ++b) {
          P3 y = {0, 0, 0};
          for (int i = 0; i < DIM; ++i) y[i] = ((c->corner_to_corner[b] >> i) & 1) ? R2 : 0;
          known.insert (TP{(int) c->corner_to_tree[b], y});
        }
      }
      for (auto & p : orb) if (!known.count (p)) return false;
    }
  }
  return true;
}

u64 conn_hash (p4est_connectivity_t * c)
{
  u64 h = hcomb (c->num_trees, c->num_corners);
  for (int i = 0; i < c->num_trees * NF; ++i) h = hcomb (h, hcomb (c->tree_to_tree[i], c->tree_to_face[i]));
  for (int i = 0; i < c->ctt_offset[c->num_corners]; ++i) h = hcomb (h, hcomb (c->corner_to_tree[i], c->corner_to_corner[i]));
#ifdef P4_TO_P8
  for (int i = 0; i < c->ett_offset[c->num_edges]; ++i) h = hcomb (h, hcomb (c->edge_to_tree[i], c->edge_to_edge[i]));
#endif
  return h;
}

/* ------------------------------------------------------------------ leaves */

u128 morton (const i64 * x)
{
  u128 k = 0;
  for (int b = ML - 1; b >= 0; --b)
    for (int i = DIM - 1; i >= 0; --i)
      k = (k << 1) | (u128) ((x[i] >> b) & 1);
  return k;
}
u128 Leaf::key () const { return morton (x); }

Leaf mkleaf (int t, const p4est_quadrant_t * q)
{
  Leaf a;
  a.t = t; a.l = q->level; a.x[0] = q->x; a.x[1] = q->y;
#ifdef P4_TO_P8
  a.x[2] = q->z;
#else
  a.x[2] = 0;
#endif
  a.rank = -1; a.gi = -1;
  return a;
}

void leaf_to_quad (const Leaf & a, p4est_quadrant_t * q)
{
  memset (q, 0, sizeof (*q));
  q->x = (p4est_qcoord_t) a.x[0]; q->y = (p4est_qcoord_t) a.x[1];
#ifdef P4_TO_P8
  q->z = (p4est_qcoord_t) a.x[2];
#endif
  q->level = (int8_t) a.l;
}

std::string leaf_str (const Leaf & a)
{
  char b[160];
  snprintf (b, sizeof (b), "(tree %d level %d x %lld %lld %lld /2^%d rank %d gi %lld)", a.t, a.l, (long long) (a.x[0] >> (ML - a.l)),
            (long long) (a.x[1] >> (ML - a.l)), (long long) (a.x[2] >> (ML - a.l)), a.l, a.rank, (long long) a.gi);
  return b;
}

Leaf leaf_child (const Leaf & a, int c)
{
  Leaf b = a;
  b.l = a.l + 1;
  for (int i = 0; i < DIM; ++i) if ((c >> i) & 1) b.x[i] += b.len ();
  return b;
}
Leaf leaf_parent (const Leaf & a)
{
  Leaf b = a;
  b.l = a.l - 1;
  for (int i = 0; i < DIM; ++i) b.x[i] &= ~(b.len () - 1);
  return b;
}
int leaf_childid (const Leaf & a)
{
  int c = 0;
  if (a.l == 0) return 0;
  for (int i = 0; i < DIM; ++i) if (a.x[i] & a.len ()) c |= 1 << i;
  return c;
}

void GForest::index (int ntrees)
{
  nt = ntrees;
  key.resize (q.size ());
  tfirst.assign (nt + 1, 0);
  for (size_t i = 0; i < q.size (); ++i) { key[i] = q[i].key (); if (q[i].t >= 0 && q[i].t < nt) tfirst[q[i].t + 1]++; q[i].gi = (i64) i; }
  for (int t = 0; t < nt; ++t) tfirst[t + 1] += tfirst[t];
}

i64 GForest::find_key (int t, u128 k) const
{
  auto b = key.begin () + tfirst[t], e = key.begin () + tfirst[t + 1];
  auto it = std::upper_bound (b, e, k);
  if (it == b) return -1;
  --it;
  i64 i = it - key.begin ();
  if (k - key[i] < leaf_span (q[i].l)) return i;
  return -1;
}

void GForest::containing (int t, const P3 & p, std::vector<int> & out) const
{
  out.clear ();
  for (int m = 0; m < (1 << DIM); ++m) {
    i64 c[3] = {0, 0, 0};
    bool ok = true;
    for (int i = 0; i < DIM; ++i) {
      if (p[i] & 1) { if ((m >> i) & 1) { ok = false; break; } c[i] = p[i] >> 1; }
      else c[i] = (p[i] >> 1) - ((m >> i) & 1);
      if (c[i] < 0 || c[i] >= RL) { ok = false; break; }
    }
    if (!ok) continue;
    i64 k = find_key (t, morton (c));
    if (k >= 0 && std::find (out.begin (), out.end (), (int) k) == out.end ()) out.push_back ((int) k);
  }
}

u64 GForest::hash (bool wp) const
{
  u64 h = q.size ();
  for (auto & a : q) { h = hcomb (h, hcomb (a.t * 64 + a.l, hcomb (a.x[0], hcomb (a.x[1], a.x[2])))); if (wp) h = hcomb (h, a.rank); }
  return h;
}

std::vector<Leaf> local_leaves (p4est_t * p)
{
  std::vector<Leaf> v;
  if (p->first_local_tree < 0) return v;
  for (p4est_topidx_t t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = (p4est_tree_t *) (p->trees->array + sizeof (p4est_tree_t) * t);
    for (size_t i = 0; i < tr->quadrants.elem_count; ++i) {
      Leaf a = mkleaf (t, (p4est_quadrant_t *) (tr->quadrants.array + i * sizeof (p4est_quadrant_t)));
      a.rank = p->mpirank;
      v.push_back (a);
    }
  }
  return v;
}

GForest gather (p4est_t * p)
{
  GForest g;
  std::vector<int> n;
  g.q = allgatherv (local_leaves (p), p->mpicomm, &n);
  g.rfirst.assign (n.size () + 1, 0);
  for (size_t i = 0; i < n.size (); ++i) g.rfirst[i + 1] = g.rfirst[i] + n[i];
  g.index (p->connectivity->num_trees);
  return g;
}

bool complete_sorted (const std::vector<Leaf> & q, int nt, std::string & why)
{
  size_t i = 0;
  for (int t = 0; t < nt; ++t) {
    u128 pos = 0, end = leaf_span (0);
    while (i < q.size () && q[i].t == t) {
      const Leaf & a = q[i];
      if (a.l < 0 || a.l > QML) { why = "bad level " + leaf_str (a); return false; }
      for (int d = 0; d < DIM; ++d) if (a.x[d] < 0 || a.x[d] >= RL || (a.x[d] & (a.len () - 1))) { why = "bad coordinates " + leaf_str (a); return false; }
      if (a.key () != pos) { why = (a.key () < pos ? "overlap or order at " : "gap before ") + leaf_str (a); return false; }
      pos += leaf_span (a.l);
      ++i;
    }
    if (pos != end) { why = "tree " + std::to_string (t) + " incomplete"; return false; }
  }
  if (i != q.size ()) { why = "leaves out of tree order"; return false; }
  return true;
}

std::vector<Adj> adjacency (const Geo & g, const GForest & f, MPI_Comm comm)
{
  int P = 1, r = 0;
  if (comm != MPI_COMM_NULL) { MPI_Comm_size (comm, &P); MPI_Comm_rank (comm, &r); }
  std::vector<Adj> loc;
  std::vector<TP> orb;
  std::vector<int> cont;
  for (size_t i = r; i < f.q.size (); i += P) {
    const Leaf & a = f.q[i];
    std::map<int, int> best;
    for (auto & e : entities ()) {
      P3 x = ent_center (a, e);
      g.orbit (a.t, x, orb);
      for (auto & o : orb) {
        f.containing (o.t, o.x, cont);
        for (int b : cont) if (b != (int) i && f.q[b].l <= a.l) {
          auto it = best.find (b);
          if (it == best.end ()) best[b] = e.dim; else it->second = std::max (it->second, e.dim);
        }
      }
    }
    for (auto & kv : best) loc.push_back (Adj{std::min ((int) i, kv.first), std::max ((int) i, kv.first), kv.second});
  }
  std::vector<Adj> all = P > 1 ? allgatherv (loc, comm) : loc;
  std::sort (all.begin (), all.end (), [] (const Adj & x, const Adj & y) { return std::tie (x.a, x.b, x.dim) < std::tie (y.a, y.b, y.dim); });
  std::vector<Adj> out;
  for (auto & x : all) {
    if (!out.empty () && out.back ().a == x.a && out.back ().b == x.b) out.back ().dim = x.dim; else out.push_back (x);
  }
  return out;
}

/* --------------------------------------------------------------- user data */
u64 leaf_id (int t, const p4est_quadrant_t * q, u64 salt)
{
  u64 h = hcomb (t * 64 + q->level, hcomb ((u64) q->x, (u64) q->y));
#ifdef P4_TO_P8
  h = hcomb (h, (u64) q->z);
#endif
  return hcomb (h, salt);
}
void fill_bytes (void *dst, size_t n, u64 id)
{
  unsigned char *c = (unsigned char *) dst;
  if (n >= 8) { memcpy (c, &id, 8); for (size_t i = 8; i < n; ++i) c[i] = (unsigned char) (mix64 (id + (i >> 3)) >> (8 * (i & 7))); }
  else for (size_t i = 0; i < n; ++i) c[i] = (unsigned char) (id >> (8 * i));
}
bool check_bytes (const void *src, size_t n, u64 id)
{
  const unsigned char *c = (const unsigned char *) src;
  for (size_t i = 0; i < n; ++i) {
    unsigned char e = n >= 8 && i >= 8 ? (unsigned char) (mix64 (id + (i >> 3)) >> (8 * (i & 7))) : (unsigned char) (id >> (8 * i));
    if (c[i] != e) return false;
  }
  return true;
}

/* ------------------------------------------------------- adaptive helpers */
static std::function<int (int, const p4est_quadrant_t *)> *cur_ref;
static std::function<int (int, p4est_quadrant_t **)> *cur_coa;
static int ref_cb (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q) { return (*cur_ref) (t, q); }
static int coa_cb (p4est_t *, p4est_topidx_t t, p4est_quadrant_t * q[]) { return (*cur_coa) (t, q); }

void refine_pred (p4est_t * p, std::function<int (int, const p4est_quadrant_t *)> pred, bool rec, int maxlevel, p4est_init_t init)
{
  cur_ref = &pred;
  p4est_refine_ext (p, rec, maxlevel, ref_cb, init, NULL);
}
void coarsen_pred (p4est_t * p, std::function<int (int, p4est_quadrant_t **)> pred, bool rec, p4est_init_t init)
{
  cur_coa = &pred;
  p4est_coarsen_ext (p, rec, 0, coa_cb, init, NULL);
}
void partition_counts (p4est_t * p, const std::vector<i64> & n)
{
  std::vector<p4est_locidx_t> c (n.begin (), n.end ());
  p4est_partition_given (p, c.data ());
}

std::vector<i64> random_counts (Rng & r, i64 n, int P, bool empties)
{
  std::vector<i64> cut (P + 1, 0);
  cut[P] = n;
  int mode = r.below (empties ? 5 : 2);
  for (int i = 1; i < P; ++i) {
    if (mode == 0) cut[i] = n * i / P;
    else if (mode == 1) { i64 v = n * i / P + r.range (-3, 3); cut[i] = std::max<i64> (0, std::min (n, v)); }
    else if (mode == 2) cut[i] = (i64) (r.next () % (u64) (n + 1));
    else if (mode == 3) { int k = r.below (3); cut[i] = k == 0 ? 0 : k == 1 ? n : (i64) (r.next () % (u64) (n + 1)); }
    else { cut[i] = std::min<i64> (n, (i64) r.below (4) + (i64) (i > 1 ? cut[i - 1] : 0)); }
  }
  std::sort (cut.begin (), cut.end ());
  std::vector<i64> c (P);
  for (int i = 0; i < P; ++i) c[i] = cut[i + 1] - cut[i];
  return c;
}

void random_partition (Rng & r, p4est_t * p, bool empties)
{
  switch (r.below (5)) {
  case 4: {
    /* one process gets just one of the finest leaves */
    std::vector<i64> n = random_counts (r, p->global_num_quadrants, p->mpisize, empties);
    i64 best = -1, me = p->global_first_quadrant[p->mpirank];
    for (int t = p->first_local_tree; t <= p->last_local_tree && t >= 0; ++t) {
      sc_array_t *a = &p4est_tree_array_index (p->trees, t)->quadrants;
      for (size_t i = 0; i < a->elem_count; ++i, ++me) {
        i64 h = (i64) p4est_quadrant_array_index (a, i)->level << 40;
        best = std::max (best, h + (i64) (hcomb (p->global_num_quadrants, me) % (1 << 20)) * (1 << 20));
      }
    }
    i64 gb = allmax (best, p->mpicomm), at = -1;
    me = p->global_first_quadrant[p->mpirank];
    for (int t = p->first_local_tree; t <= p->last_local_tree && t >= 0; ++t) {
      sc_array_t *a = &p4est_tree_array_index (p->trees, t)->quadrants;
      for (size_t i = 0; i < a->elem_count; ++i, ++me)
        if ((i64) p4est_quadrant_array_index (a, i)->level << 40 == (gb >> 40) << 40 && (i64) (hcomb (p->global_num_quadrants, me) % (1 << 20)) * (1 << 20) == gb - ((gb >> 40) << 40)) at = me;
    }
    at = allmax (at, p->mpicomm);
    int k = r.below (p->mpisize);
    std::vector<i64> o (p->mpisize + 1, 0);
    for (int q = 0; q < p->mpisize; ++q) o[q + 1] = o[q] + n[q];
    if (p->mpisize > 1) {
      for (int q = 0; q <= p->mpisize; ++q) { if (q <= k) o[q] = std::min (o[q], at); else o[q] = std::max (o[q], at + 1); }
      if (k > 0) o[k] = at;
      if (k < p->mpisize - 1) o[k + 1] = at + 1;
      if (k == 0) o[0] = 0;
    }
    for (int q = 0; q < p->mpisize; ++q) n[q] = o[q + 1] - o[q];
    partition_counts (p, n);
    break;
  }
  case 0: p4est_partition (p, 0, NULL); break;
  case 1: p4est_partition (p, 1, NULL); break;
  default: partition_counts (p, random_counts (r, p->global_num_quadrants, p->mpisize, empties)); break;
  }
}

static bool quad_contains (const p4est_quadrant_t * q, const i64 * x)
{
  i64 h = (i64) 1 << (ML - q->level);
  if (!(q->x <= x[0] && x[0] < q->x + h && q->y <= x[1] && x[1] < q->y + h)) return false;
#ifdef P4_TO_P8
  if (!(q->z <= x[2] && x[2] < q->z + h)) return false;
#endif
  return true;
}

void random_refine (Rng & r, p4est_t * p, const ForestOpts & o)
{
  int nt = p->connectivity->num_trees;
  int mode = r.below (10);
  if (mode < 4) {
    /* random subset, non recursive */
    u64 salt = r.next ();
    i64 n = p->global_num_quadrants;
    double pr = std::min (1.0, std::max (0.02, (o.target - n) / (double) (n * (NC - 1) + 1))) * (0.3 + 0.7 * r.unit ());
    int maxl = o.maxl;
    refine_pred (p, [&] (int t, const p4est_quadrant_t * q) {
      return q->level < maxl && (leaf_id (t, q, salt) >> 11) * (1.0 / 9007199254740992.0) < pr; }, false);
  }
  else {
    /* towards points; often on tree boundaries */
    int np = r.range (1, 2);
    int lev = r.chance (o.deep) ? r.chance (0.35) ? QML : r.range (8, QML) : r.range (2, std::max (3, o.maxl));
    if (DIM == 3 && lev > 9 && !r.chance (0.2)) lev = 9;
    struct Pt { int t; i64 x[3]; };
    std::vector<Pt> pts (np);
    for (auto & a : pts) {
      a.t = r.below (nt);
      for (int i = 0; i < 3; ++i) {
        int k = r.below (6);
        a.x[i] = k <= 1 ? 0 : k <= 3 ? RL - 1 : k == 4 ? (RL >> r.range (1, 3)) - r.below (2) : (i64) (r.next () & (u64) (RL - 1));
      }
    }
    i64 budget = 2 * o.target;
    if (p->global_num_quadrants > budget) return;
    refine_pred (p, [&] (int t, const p4est_quadrant_t * q) {
      if (q->level >= lev) return 0;
      for (auto & a : pts) if (a.t == t && quad_contains (q, a.x)) return 1;
      return 0; }, true, -1);
  }
}

p4est_t *gen_forest (Rng & r, MPI_Comm comm, p4est_connectivity_t * c, const ForestOpts & o)
{
  int minl = 0;
  i64 nl = c->num_trees;
  while (minl < 2 && r.chance (0.4) && nl * NC < o.target) { ++minl; nl *= NC; }
  p4est_t *p = p4est_new_ext (comm, c, r.chance (0.7) ? 0 : r.below (4), minl, r.chance (0.5), o.data_size, NULL, NULL);
  int rounds = r.range (1, 4);
  for (int k = 0; k < rounds; ++k) {
    if (p->global_num_quadrants >= o.target) break;
    random_refine (r, p, o);
    if (r.chance (0.4)) random_partition (r, p, o.empties);
  }
  if (r.chance (0.3)) {
    u64 salt = r.next ();
    coarsen_pred (p, [&] (int t, p4est_quadrant_t ** q) { return leaf_id (t, q[0], salt) % 4 == 0; }, r.chance (0.3));
  }
  random_partition (r, p, o.empties);
  return p;
}

/* ------------------------------------------------- random connectivities */
struct UF
{
  std::vector<int> p;
  UF (int n) : p (n) { for (int i = 0; i < n; ++i) p[i] = i; }
  int find (int a) { while (p[a] != a) a = p[a] = p[p[a]]; return a; }
  void join (int a, int b) { p[find (a)] = find (b); }
};

struct Cx                               /* abstract complex of cubes */
{
  int n = 0;
  struct Glue { int u = -1; Xf x; };
  std::vector<Glue> g;                  /* n * NF */
  std::vector<std::array<double, 3>> v; /* n * NC vertex coordinates, or empty */
  void resize (int k) { n = k; g.assign (k * NF, Glue ()); }
  void glue (int t, int f, int u, const Xf & x)
  {
    g[t * NF + f].u = u; g[t * NF + f].x = x;
    int nf = image_face (f, x);
    g[u * NF + nf].u = t; g[u * NF + nf].x = xf_inverse (x);
  }
  static P3 root_center (const Ent & e) { P3 p = {0, 0, 0}; for (int i = 0; i < DIM; ++i) p[i] = RL + e.d[i] * RL; return p; }
  static int ent_at (const P3 & p, int from, int to)
  {
    for (int k = from; k < to; ++k) if (root_center (entities ()[k]) == p) return k - from;
    return -1;
  }
  static int image_face (int f, const Xf & x) { return ent_at (x.map (root_center (entities ()[f])), 0, NF); }
  static int image_corner (int c, const Xf & x) { return ent_at (x.map (root_center (entities ()[ent_corner0 + c])), ent_corner0, ent_corner0 + NC); }
  static int image_edge (int e, const Xf & x, int *flip)
  {
    P3 m = x.map (root_center (entities ()[ent_edge0 + e]));
    int ne = ent_at (m, ent_edge0, ent_edge0 + NE);
    P3 q = root_center (entities ()[ent_edge0 + e]);
    q[e / 4] = 0;
    P3 y = x.map (q);
    *flip = y[ne / 4] == R2;
    return ne;
  }
  static bool on_face (int f, const Ent & e) { return e.d[f / 2] == ((f & 1) ? 1 : -1); }
  void classes (UF & cc, UF & ec) const
  {
    for (int t = 0; t < n; ++t) for (int f = 0; f < NF; ++f) {
      const Glue & a = g[t * NF + f];
      if (a.u < 0) continue;
      for (int c = 0; c < NC; ++c) if (on_face (f, entities ()[ent_corner0 + c])) cc.join (t * NC + c, a.u * NC + image_corner (c, a.x));
      for (int e = 0; e < NE; ++e) if (on_face (f, entities ()[ent_edge0 + e])) {
        int fl, ne = image_edge (e, a.x, &fl);
        for (int d = 0; d < 2; ++d) ec.join ((t * NE + e) * 2 + d, (a.u * NE + ne) * 2 + (d ^ fl));
      }
    }
  }
};

static void cx_brick (Cx & x, const int *m, const int *per)
{
  int n = m[0] * m[1] * (DIM == 3 ? m[2] : 1);
  x.resize (n);
  x.v.resize (n * NC);
  auto id = [&] (int a, int b, int c) { return a + m[0] * (b + m[1] * c); };
  for (int c = 0; c < (DIM == 3 ? m[2] : 1); ++c) for (int b = 0; b < m[1]; ++b) for (int a = 0; a < m[0]; ++a) {
    int co[3] = { a, b, c };
    for (int i = 0; i < DIM; ++i) {
      int nb[3] = { a, b, c };
      nb[i] = co[i] + 1;
      if (nb[i] == m[i]) { if (!per[i]) continue; nb[i] = 0; }
      Xf tr;
      tr.off[i] = -R2;
      x.glue (id (a, b, c), 2 * i + 1, id (nb[0], nb[1], nb[2]), tr);
    }
    for (int k = 0; k < NC; ++k) x.v[id (a, b, c) * NC + k] = { (double) a + (k & 1), (double) b + ((k >> 1) & 1), DIM == 3 ? (double) c + ((k >> 2) & 1) : 0. };
  }
}

/* random surface of squares as list of 2D gluings: (t,f,u,nf,o) */
struct SGl { int t, f, u, nf, flip; };
static std::vector<SGl> random_surface (Rng & r, int n, bool orientable, double pglue)
{
  std::vector<SGl> out;
  std::vector<int> used (n * 4, 0);
  std::vector<int> cls;
  for (int tries = 0; tries < n * 10; ++tries) {
    if (!r.chance (pglue)) continue;
    int t = r.below (n), f = r.below (4), u = r.below (n), nf = r.below (4);
    if (t == u || used[t * 4 + f] || used[u * 4 + nf]) continue;
    int flip = r.below (2);
    if (orientable) {
      /* 2D map outward f -> inward nf, tangential sign: determinant +1 */
      int sgn = ((f & 1) ? 1 : -1) * ((nf & 1) ? -1 : 1);
      int samex = (f / 2 == nf / 2);
      flip = samex ? (sgn < 0) : (sgn > 0);
    }
    SGl g{t, f, u, nf, flip};
    /* reject if some corner class would contain a tree twice */
    std::vector<SGl> trial = out;
    trial.push_back (g);
    UF uf (n * 4);
    auto fc = [] (int face, int k) { int a = face / 2, s = face & 1; return a == 0 ? s + 2 * k : k + 2 * s; };
    for (auto & h : trial) for (int k = 0; k < 2; ++k) uf.join (h.t * 4 + fc (h.f, k), h.u * 4 + fc (h.nf, k ^ h.flip));
    bool ok = true;
    std::set<std::pair<int, int>> seen;
    for (int i = 0; i < n * 4 && ok; ++i) if (!seen.insert ({uf.find (i), i / 4}).second) ok = false;
    if (!ok) continue;
    out = trial;
    used[t * 4 + f] = used[u * 4 + nf] = 1;
  }
  return out;
}

static Xf surf_xf (const SGl & s)
{
  /* in-plane map; third axis identity */
  Xf x;
  int a = s.f / 2, b = s.nf / 2;
  int outl = (s.f & 1) ? 1 : -1, inh = (s.nf & 1) ? -1 : 1;
  x.to[a] = b; x.sg[a] = outl * inh;
  x.off[b] = ((s.nf & 1) ? R2 : 0) - x.sg[a] * ((s.f & 1) ? R2 : 0);
  x.to[1 - a] = 1 - b; x.sg[1 - a] = s.flip ? -1 : 1; x.off[1 - b] = s.flip ? R2 : 0;
  return x;
}

static Xf random_rotation (Rng & r)
{
  for (;;) {
    Xf x;
    int p[3] = { 0, 1, 2 };
    for (int i = DIM - 1; i > 0; --i) std::swap (p[i], p[r.below (i + 1)]);
    for (int i = 0; i < DIM; ++i) { x.to[i] = p[i]; int f = r.below (2); x.sg[i] = f ? -1 : 1; x.off[p[i]] = f ? R2 : 0; }
    if (DIM == 2 || det3 (x) == 1) return x;
  }
}
static Xf compose (const Xf & b, const Xf & a)  /* b after a */
{
  Xf c;
  for (int i = 0; i < DIM; ++i) {
    int k = a.to[i];
    c.to[i] = b.to[k];
    c.sg[i] = a.sg[i] * b.sg[k];
    c.off[b.to[k]] = b.sg[k] * a.off[k] + b.off[b.to[k]];
  }
  return c;
}

static p4est_connectivity_t *cx_emit (Rng & r, const Cx & full, std::vector<char> keep, bool rotate, bool vertices, bool *degenerate)
{
  int n = full.n;
  UF cc (n * NC), ec (std::max (1, n * NE * 2));
  full.classes (cc, ec);
  *degenerate = false;
  for (int i = 0; i < n * NE; ++i) if (ec.find (2 * i) == ec.find (2 * i + 1)) *degenerate = true;
  if (*degenerate) return NULL;
  std::vector<int> order;
  for (int i = 0; i < n; ++i) if (keep[i]) order.push_back (i);
  if (rotate) for (int i = (int) order.size () - 1; i > 0; --i) std::swap (order[i], order[r.below (i + 1)]);
  int m = (int) order.size ();
  std::vector<int> neu (n, -1);
  for (int i = 0; i < m; ++i) neu[order[i]] = i;
  std::vector<Xf> rot (n);
  for (int i = 0; i < n; ++i) if (rotate) rot[i] = random_rotation (r);
  std::vector<p4est_topidx_t> ttt (m * NF);
  std::vector<int8_t> ttf (m * NF);
  /* direct face relations between corners and between edges, in new labels */
  std::set<std::pair<int, int>> crel, erel;
  for (int i = 0; i < m; ++i) for (int f = 0; f < NF; ++f) { ttt[i * NF + f] = i; ttf[i * NF + f] = (int8_t) f; }
  for (int o = 0; o < n; ++o) if (neu[o] >= 0) for (int f = 0; f < NF; ++f) {
    const Cx::Glue & a = full.g[o * NF + f];
    if (a.u < 0 || neu[a.u] < 0) continue;
    Xf x = compose (rot[a.u], compose (a.x, xf_inverse (rot[o])));
    int F = Cx::image_face (f, rot[o]);
    int G = Cx::image_face (F, x);
    int orient = -1;
    for (int k = 0; k < NH; ++k) {
      Xf y = face_xf (F, G, k);
      bool same = true;
      for (int i = 0; i < DIM; ++i) if (y.to[i] != x.to[i] || y.sg[i] != x.sg[i] || y.off[i] != x.off[i]) same = false;
      if (same) orient = k;
    }
    SC_CHECK_ABORT (orient >= 0, "harness: gluing has no orientation code");
    ttt[neu[o] * NF + F] = neu[a.u];
    ttf[neu[o] * NF + F] = (int8_t) (G + NF * orient);
    for (int c = 0; c < NC; ++c) if (Cx::on_face (F, entities ()[ent_corner0 + c]))
      crel.insert ({neu[o] * NC + c, neu[a.u] * NC + Cx::image_corner (c, x)});
    for (int e = 0; e < NE; ++e) if (Cx::on_face (F, entities ()[ent_edge0 + e])) {
      int fl, ne = Cx::image_edge (e, x, &fl);
      erel.insert ({neu[o] * NE + e, neu[a.u] * NE + ne});
    }
  }
  /* edge groups */
  std::vector<p4est_topidx_t> tte (m * std::max (1, NE), -1), eoff (1, 0), ett;
  std::vector<int8_t> ete;
  if (NE) {
    std::map<int, std::vector<std::array<int, 3>>> grp;  /* class root (of one direction) -> (tree, edge, flip) */
    for (int o = 0; o < n; ++o) if (neu[o] >= 0) for (int e = 0; e < NE; ++e) {
      int r0 = ec.find ((o * NE + e) * 2), r1 = ec.find ((o * NE + e) * 2 + 1);
      int fl, ne = Cx::image_edge (e, rot[o], &fl);
      int root = std::min (r0, r1);
      grp[root].push_back ({neu[o], ne, fl ^ (r0 == root ? 0 : 1)});
    }
    for (auto & kv : grp) {
      auto & v = kv.second;
      bool need = false;
      for (size_t i = 0; i < v.size (); ++i) for (size_t j = i + 1; j < v.size (); ++j) {
        int a = v[i][0] * NE + v[i][1], b = v[j][0] * NE + v[j][1];
        if (!erel.count ({a, b})) need = true;
      }
      if (!need) continue;
      if (rotate) {
        for (int i = (int) v.size () - 1; i > 0; --i) std::swap (v[i], v[r.below (i + 1)]);
        if (r.chance (0.5)) for (auto & w : v) w[2] ^= 1;
      }
      int g = (int) eoff.size () - 1;
      for (auto & w : v) { tte[w[0] * NE + w[1]] = g; ett.push_back (w[0]); ete.push_back ((int8_t) (w[1] + 12 * w[2])); }
      eoff.push_back ((p4est_topidx_t) ett.size ());
      /* endpoints of a stored edge count as related corners */
      for (auto & w : v) for (auto & y : v) for (int d = 0; d < 2; ++d) {
        auto corner_of = [] (int e, int end) { const Ent & en = entities ()[ent_edge0 + e]; int c = 0; for (int i = 0; i < 3; ++i) if (i == e / 4 ? end : en.d[i] > 0) c |= 1 << i; return c; };
        crel.insert ({w[0] * NC + corner_of (w[1], d ^ w[2]), y[0] * NC + corner_of (y[1], d ^ y[2])});
      }
    }
  }
  std::vector<p4est_topidx_t> ttc (m * NC, -1), coff (1, 0), ctt;
  std::vector<int8_t> ctc;
  std::map<int, std::vector<std::array<int, 2>>> cg;
  for (int o = 0; o < n; ++o) if (neu[o] >= 0) for (int c = 0; c < NC; ++c)
    cg[cc.find (o * NC + c)].push_back ({neu[o], Cx::image_corner (c, rot[o])});
  for (auto & kv : cg) {
    auto & v = kv.second;
    bool need = false;
    for (size_t i = 0; i < v.size (); ++i) for (size_t j = i + 1; j < v.size (); ++j)
      if (!crel.count ({v[i][0] * NC + v[i][1], v[j][0] * NC + v[j][1]})) need = true;
    if (!need) continue;
    if (rotate) for (int i = (int) v.size () - 1; i > 0; --i) std::swap (v[i], v[r.below (i + 1)]);
    int g = (int) coff.size () - 1;
    for (auto & w : v) { ttc[w[0] * NC + w[1]] = g; ctt.push_back (w[0]); ctc.push_back ((int8_t) w[1]); }
    coff.push_back ((p4est_topidx_t) ctt.size ());
  }
  std::vector<double> vx;
  std::vector<p4est_topidx_t> ttv;
  if (vertices && !full.v.empty ()) {
    std::map<std::array<double, 3>, int> idx;
    ttv.resize (m * NC);
    for (int o = 0; o < n; ++o) if (neu[o] >= 0) for (int c = 0; c < NC; ++c) {
      auto & p = full.v[o * NC + c];
      auto it = idx.find (p);
      if (it == idx.end ()) { it = idx.insert ({p, (int) idx.size ()}).first; vx.insert (vx.end (), p.begin (), p.end ()); }
      ttv[neu[o] * NC + Cx::image_corner (c, rot[o])] = it->second;
    }
  }
  int nv = (int) (vx.size () / 3);
#ifdef P4_TO_P8
  int ne = (int) eoff.size () - 1;
#endif
  int nc = (int) coff.size () - 1;
  ett.push_back (0); ete.push_back (0); ctt.push_back (0); ctc.push_back (0);
  return p4est_connectivity_new_copy (nv, m,
#ifdef P4_TO_P8
                                      ne,
#endif
                                      nc, nv ? vx.data () : NULL, nv ? ttv.data () : NULL, ttt.data (), ttf.data (),
#ifdef P4_TO_P8
                                      ne ? tte.data () : NULL, eoff.data (), ett.data (), ete.data (),
#endif
                                      nc ? ttc.data () : NULL, coff.data (), ctt.data (), ctc.data ());
}

static p4est_connectivity_t *builtin_conn (Rng & r, const ConnOpts & o, std::string & name)
{
  char b[80];
  for (;;) {
#ifndef P4_TO_P8
    int k = r.below (19);
    switch (k) {
    case 0: name = "unitsquare"; return p4est_connectivity_new_unitsquare ();
    case 1: name = "periodic"; return p4est_connectivity_new_periodic ();
    case 2: name = "rotwrap"; return p4est_connectivity_new_rotwrap ();
    case 3: name = "circle"; return p4est_connectivity_new_circle ();
    case 4: name = "drop"; return p4est_connectivity_new_drop ();
    case 5: { int l = r.below (4), q = r.below (4), t = r.below (2); snprintf (b, 80, "twotrees(%d,%d,%d)", l, q, t); name = b; return p4est_connectivity_new_twotrees (l, q, t); }
    case 6: name = "corner"; return p4est_connectivity_new_corner ();
    case 7: name = "pillow"; return p4est_connectivity_new_pillow ();
    case 8: name = "moebius"; return p4est_connectivity_new_moebius ();
    case 9: name = "star"; return p4est_connectivity_new_star ();
    case 10: name = "cubed"; return p4est_connectivity_new_cubed ();
    case 11: name = "disk_nonperiodic"; return p4est_connectivity_new_disk_nonperiodic ();
    case 12: { int p = r.below (2), q = r.below (2); snprintf (b, 80, "disk(%d,%d)", p, q); name = b; return p4est_connectivity_new_disk (p, q); }
    case 13: if (o.max_trees < 10) continue; name = "icosahedron"; return p4est_connectivity_new_icosahedron ();
    case 14: name = "shell2d"; return p4est_connectivity_new_shell2d ();
    case 15: name = "disk2d"; return p4est_connectivity_new_disk2d ();
    case 16: name = "bowtie"; return p4est_connectivity_new_bowtie ();
    default: { int m = r.range (1, 3), n = r.range (1, 3), p = r.below (2), q = r.below (2); snprintf (b, 80, "brick(%d,%d,%d,%d)", m, n, p, q); name = b; return p4est_connectivity_new_brick (m, n, p, q); }
    }
#else
    int k = r.below (15);
    switch (k) {
    case 0: name = "unitcube"; return p8est_connectivity_new_unitcube ();
    case 1: name = "periodic"; return p4est_connectivity_new_periodic ();
    case 2: name = "rotwrap"; return p8est_connectivity_new_rotwrap ();
    case 3: name = "drop"; return p8est_connectivity_new_drop ();
    case 4: name = "twocubes"; return p8est_connectivity_new_twocubes ();
    case 5: case 6: { int l = r.below (6), q = r.below (6), t = r.below (4); snprintf (b, 80, "twotrees(%d,%d,%d)", l, q, t); name = b; return p8est_connectivity_new_twotrees (l, q, t); }
    case 7: name = "twowrap"; return p8est_connectivity_new_twowrap ();
    case 8: name = "rotcubes"; return p8est_connectivity_new_rotcubes ();
    case 9: name = "pillow"; return p8est_connectivity_new_pillow ();
    case 10: if (o.max_trees < 24) continue; name = "shell"; return p8est_connectivity_new_shell ();
    case 11: if (o.max_trees < 13) continue; name = "sphere"; return p8est_connectivity_new_sphere ();
    case 12: { int n = r.range (1, 3); if (5 * n > std::max (o.max_trees, 5)) n = 1; snprintf (b, 80, "torus(%d)", n); name = b; return p8est_connectivity_new_torus (n); }
    default: { int m = r.range (1, 2), n = r.range (1, 2), l = r.range (1, 2), p = r.below (2), q = r.below (2), s = r.below (2);
        snprintf (b, 80, "brick(%d,%d,%d,%d,%d,%d)", m, n, l, p, q, s); name = b; return p8est_connectivity_new_brick (m, n, l, p, q, s); }
    }
#endif
  }
}

p4est_connectivity_t *gen_conn (Rng & r, const ConnOpts & o, std::string & name)
{
  char b[160];
  entities ();
  for (;;) {
    p4est_connectivity_t *c = NULL;
    int kind = r.below (10);
    if (kind < 3 || o.builtin_only) c = builtin_conn (r, o, name);
    else {
      Cx x;
      bool verts = false;
      if (kind < 7) {
        int m[3], per[3];
        do { for (int i = 0; i < 3; ++i) m[i] = r.range (1, DIM == 2 ? 4 : 3); } while (m[0] * m[1] * (DIM == 3 ? m[2] : 1) > o.max_trees);
        for (int i = 0; i < 3; ++i) per[i] = o.want_vertices ? 0 : (r.chance (0.3) && (o.allow_weird || m[i] >= 3));
        cx_brick (x, m, per);
        std::vector<char> keep (x.n, 1);
        int kept = x.n;
        if (r.chance (0.5)) for (int i = 0; i < x.n; ++i) if (r.chance (0.3) && kept > 1) { keep[i] = 0; --kept; }
        bool rot = r.chance (0.8);
        verts = o.want_vertices || r.chance (0.5);
        snprintf (b, sizeof (b), "lattice %dx%dx%d periodic %d%d%d kept %d%s%s", m[0], m[1], DIM == 3 ? m[2] : 1, per[0], per[1], DIM == 3 ? per[2] : 0, kept, rot ? " rotated" : "", verts ? " verts" : "");
        bool deg;
        c = cx_emit (r, x, keep, rot, verts, &deg);
      }
      else {
        if (o.want_vertices) continue;
        int ns = r.range (2, DIM == 2 ? std::min (8, o.max_trees) : std::max (2, std::min (5, o.max_trees)));
        bool orient = DIM == 3 ? true : r.chance (0.4);
        auto gl = random_surface (r, ns, orient, 0.9);
        int layers = DIM == 3 ? r.range (1, std::max (1, std::min (3, o.max_trees / ns))) : 1;
        bool zper = DIM == 3 && r.chance (0.4) && (o.allow_weird || layers >= 3);
        x.resize (ns * layers);
        for (int l = 0; l < layers; ++l) for (auto & s : gl) x.glue (s.t + l * ns, s.f, s.u + l * ns, surf_xf (s));
        if (DIM == 3) for (int l = 0; l < layers; ++l) for (int s = 0; s < ns; ++s) {
          if (l == layers - 1 && !zper) continue;
          Xf tr; tr.off[2] = -R2;
          x.glue (s + l * ns, 5, s + ((l + 1) % layers) * ns, tr);
        }
        std::vector<char> keep (x.n, 1);
        int kept = x.n;
        if (r.chance (0.3)) for (int i = 0; i < x.n; ++i) if (r.chance (0.25) && kept > 1) { keep[i] = 0; --kept; }
        snprintf (b, sizeof (b), "surface of %d squares %zu glued%s layers %d%s kept %d", ns, gl.size (), orient ? " oriented" : "", layers, zper ? " periodic" : "", kept);
        bool deg;
        c = cx_emit (r, x, keep, true, false, &deg);
      }
      name = b;
    }
    if (c == NULL) continue;
    if (c->num_trees > std::max (o.max_trees, 5)) { p4est_connectivity_destroy (c); continue; }
    if (o.want_vertices && c->num_vertices == 0) { p4est_connectivity_destroy (c); continue; }
    return c;
  }
}

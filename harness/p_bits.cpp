/* C19: quadrant arithmetic, linear ids and linear-octree array predicates
 * judged against binary subdivision and Morton order, computed here in wide
 * integers straight from the coordinates. */
#include "core.hpp"
namespace {
struct Q { int l; i64 x[3]; };
i64 len (int l) { return (i64) 1 << (ML - l); }
bool operator== (const Q & a, const Q & b)
{
  if (a.l != b.l) return false;
  for (int i = 0; i < DIM; ++i) if (a.x[i] != b.x[i]) return false;
  return true;
}
std::string str (const Q & a)
{
  char b[120];
  snprintf (b, sizeof b, "(%d:%lld,%lld,%lld)", a.l, (long long) a.x[0], (long long) a.x[1], (long long) (DIM == 3 ? a.x[2] : 0));
  return b;
}
const unsigned char MARK = 0xA7;
p4est_quadrant_t blank ()
{
  p4est_quadrant_t q;
  memset (&q, MARK, sizeof q);
  return q;
}
p4est_quadrant_t lib (const Q & a)
{
  p4est_quadrant_t q = blank ();
  q.x = (p4est_qcoord_t) a.x[0]; q.y = (p4est_qcoord_t) a.x[1];
#ifdef P4_TO_P8
  q.z = (p4est_qcoord_t) a.x[2];
#endif
  q.level = (int8_t) a.l;
  return q;
}
Q own (const p4est_quadrant_t & q)
{
  Q a; a.l = q.level; a.x[0] = q.x; a.x[1] = q.y; a.x[2] = 0;
#ifdef P4_TO_P8
  a.x[2] = q.z;
#endif
  return a;
}
/* everything but the coordinates and the level is as before */
bool untouched (const p4est_quadrant_t & q)
{
  p4est_quadrant_t m = blank ();
  return !memcmp (&q.p, &m.p, sizeof q.p) && q.pad8 == m.pad8 && q.pad16 == m.pad16;
}
bool inroot (const Q & a) { for (int i = 0; i < DIM; ++i) if (a.x[i] < 0 || a.x[i] >= RL) return false; return true; }
/* interleaved index of the coordinates in two's complement with ML + 2 bits */
u128 mort (const Q & a)
{
  u128 k = 0;
  const u64 m = ((u64) 1 << (ML + 2)) - 1;
  for (int b = 0; b < ML + 2; ++b)
    for (int i = 0; i < DIM; ++i)
      if (((u64) a.x[i] & m) >> b & 1) k |= (u128) 1 << (DIM * b + i);
  return k;
}
u128 span (int l) { return (u128) 1 << (DIM * (ML - l)); }
int sgn (i64 v) { return v < 0 ? -1 : v > 0; }
int cmpk (const Q & a, const Q & b)
{
  u128 x = mort (a), y = mort (b);
  return x != y ? (x < y ? -1 : 1) : sgn (a.l - b.l);
}
bool anc (const Q & a, const Q & d)     /* a strictly contains d */
{
  if (a.l >= d.l) return false;
  for (int i = 0; i < DIM; ++i) if (d.x[i] < a.x[i] || d.x[i] >= a.x[i] + len (a.l)) return false;
  return true;
}
i64 fl (i64 v, i64 m) { i64 r = v % m; if (r < 0) r += m; return v - r; }
Q ancestor (const Q & a, int l) { Q r; r.l = l; r.x[2] = 0; for (int i = 0; i < DIM; ++i) r.x[i] = fl (a.x[i], len (l)); return r; }
Q child (const Q & a, int c) { Q r = a; ++r.l; for (int i = 0; i < DIM; ++i) r.x[i] += (c >> i & 1) * len (r.l); return r; }
int cid (const Q & a, int l) { int c = 0; for (int i = 0; i < DIM; ++i) if (fl (a.x[i], len (l)) != fl (a.x[i], len (l - 1))) c |= 1 << i; return l ? c : 0; }
Q corner_desc (const Q & a, int c, int l) { Q r = a; r.l = l; for (int i = 0; i < DIM; ++i) r.x[i] += (c >> i & 1) * (len (a.l) - len (l)); return r; }
Q moved (const Q & a, const int *d) { Q r = a; for (int i = 0; i < DIM; ++i) r.x[i] += d[i] * len (a.l); return r; }

Q rand_valid (Rng & r)
{
  Q a; a.x[2] = 0;
  a.l = r.chance (.25) ? r.pick ({0, 1, 2, QML, QML - 1, QML - 2}) : r.range (0, QML);
  int m = r.below (5);
  for (int i = 0; i < DIM; ++i) {
    i64 n = (i64) 1 << a.l, v;
    switch (m) {
    case 0: v = (i64) (r.next () % (u64) n); break;
    case 1: v = r.chance (.5) ? 0 : n - 1; break;
    case 2: v = ((i64) 1 << r.range (0, a.l)) - r.below (2); break;
    case 3: v = n / 2 - r.below (2); break;
    default: v = (i64) (r.next () & r.next () & r.next ()) % n; if (r.chance (.5)) v = n - 1 - v; break;
    }
    if (v < 0) v = 0;
    if (v >= n) v = n - 1;
    a.x[i] = v * len (a.l);
  }
  return a;
}
Q exterior (Rng & r, Q a)
{
  for (int i = 0; i < DIM; ++i) {
    int m = r.below (5);
    if (m == 1) a.x[i] -= RL;
    if (m == 2) a.x[i] += RL;
    if (m == 3) a.x[i] = r.chance (.5) ? -len (a.l) : RL;
  }
  return a;
}
Q related (Rng & r, const Q & a)
{
  Q b = a;
  switch (r.below (9)) {
  case 0: return a;
  case 1: return ancestor (a, r.range (0, a.l));
  case 2: while (b.l < QML && !r.chance (.15)) b = child (b, r.below (NC)); return b;
  case 3: return corner_desc (a, r.pick ({0, NC - 1, r.below (NC)}), r.range (a.l, QML));
  case 4: if (a.l) { b = ancestor (a, a.l - 1); return child (b, r.below (NC)); } return a;
  case 5: { int d[3]; for (int & v : d) v = r.range (-1, 1); Q c = moved (a, d);
            for (int i = 0; i < DIM; ++i) if (c.x[i] < -RL || c.x[i] >= 2 * RL) return a;
            return r.chance (.5) ? c : related (r, c); }
  case 6: { /* next along the curve, then possibly enlarged, or a corner descendant */
      int l = r.range (0, a.l); Q c = ancestor (a, l);
      while (c.l > 0 && cid (c, c.l) == NC - 1) c = ancestor (c, c.l - 1);
      if (c.l == 0) return a;
      Q n = child (ancestor (c, c.l - 1), cid (c, c.l) + 1);
      if (r.chance (.6)) { int to = r.range (n.l, QML); n = corner_desc (n, r.chance (.7) ? 0 : r.below (NC), to); }
      return n; }
  case 7: { Q c = ancestor (a, r.range (0, a.l)); while (c.l < QML && !r.chance (.2)) c = child (c, r.below (NC)); return c; }
  default: return rand_valid (r);
  }
}
Q norm (Q a) { if (DIM == 2) a.x[2] = 0; return a; }

#define EQ(res, exp, key, ...) do { Q e_ = norm (exp); Q g_ = own (res); if (!(e_ == g_)) \
  FAILK (key, "%s: expected %s, got %s", (std::string (__VA_ARGS__)).c_str (), str (e_).c_str (), str (g_).c_str ()); \
  if (!untouched (res)) FAILK (key "-data", "%s: other members were modified", (std::string (__VA_ARGS__)).c_str ()); } while (0)

std::string face_name (int f) { return " face " + std::to_string (f); }

/* a quadrant inside the root */
void unary_valid (Rng & r, const Q & a)
{
  const std::string A = str (a);
  p4est_quadrant_t q = lib (a), s;
  CHK (p4est_quadrant_is_valid (&q), "valid", "%s is valid", A.c_str ());
  for (int f = 0; f < NF; ++f) {
    int d[3] = { 0, 0, 0 }; d[f / 2] = f & 1 ? 1 : -1;
    Q nb = moved (a, d);
    s = blank (); p4est_quadrant_face_neighbor (&q, f, &s);
    EQ (s, nb, "face-neighbor", A + face_name (f));
    p4est_qcoord_t c[3] = { -7, -7, -7 };
    p4est_quadrant_face_coordinates (&q, f, c);
    for (int i = 0; i < DIM; ++i) {
      i64 e = a.x[i] + (i == f / 2 ? (f & 1) * len (a.l) : len (a.l) / 2);
      CHK (c[i] == e, "face-coordinates", "%s face %d axis %d: %lld", A.c_str (), f, i, (long long) c[i]);
    }
    Q half[NH]; int k = 0;
    if (a.l < QML)
      for (int ch = 0; ch < NC; ++ch) if ((ch >> (f / 2) & 1) == !(f & 1)) half[k++] = child (nb, ch);
    if (a.l < QML) {
      p4est_quadrant_t n[NH], nur[NH];
      for (auto & z : n) z = blank ();
      for (auto & z : nur) z = blank ();
      p4est_quadrant_half_face_neighbors (&q, f, n, r.chance (.5) ? nullptr : nur);
      for (int h = 0; h < NH; ++h) EQ (n[h], half[h], "half-face", A + face_name (f));
      for (auto & z : n) z = blank ();
      p4est_quadrant_half_face_neighbors (&q, f, n, nur);
      for (int h = 0; h < NH; ++h) EQ (nur[h], corner_desc (half[h], NC - 1, QML), "half-face-nur", A + face_name (f));
    }
    p4est_quadrant_t all[NH + 2];
    for (auto & z : all) z = blank ();
    p4est_quadrant_all_face_neighbors (&q, f, all);
    for (int h = 0; h < NH; ++h) {
      if (a.l < QML) CHK (own (all[h]) == norm (half[h]), "all-face", "%s face %d small %d", A.c_str (), f, h);
      else CHK (all[h].level == -1, "all-face", "%s face %d small %d exists", A.c_str (), f, h);
    }
    CHK (own (all[NH]) == norm (nb), "all-face", "%s face %d equal", A.c_str (), f);
    bool big = a.l > 0 && (cid (a, a.l) >> (f / 2) & 1) == (f & 1);
    if (big) CHK (own (all[NH + 1]) == norm (moved (ancestor (a, a.l - 1), d)), "all-face", "%s face %d big", A.c_str (), f);
    else CHK (all[NH + 1].level == -1, "all-face", "%s face %d big exists", A.c_str (), f);
  }
#ifdef P4_TO_P8
  for (int e = 0; e < 12; ++e) {
    int d[3] = { 0, 0, 0 }, ax = e / 4, b0 = ax == 0 ? 1 : 0, b1 = ax == 2 ? 1 : 2;
    d[b0] = e & 1 ? 1 : -1; d[b1] = e & 2 ? 1 : -1;
    s = blank (); p8est_quadrant_edge_neighbor (&q, e, &s);
    EQ (s, moved (a, d), "edge-neighbor", A + " edge " + std::to_string (e));
    p4est_qcoord_t c[3];
    p8est_quadrant_edge_coordinates (&q, e, c);
    for (int i = 0; i < 3; ++i) {
      i64 x = a.x[i] + (d[i] ? (d[i] > 0) * len (a.l) : len (a.l) / 2);
      CHK (c[i] == x, "edge-coordinates", "%s edge %d axis %d: %d", A.c_str (), e, i, c[i]);
    }
    bool t = true;
    for (int i = 0; i < 3; ++i) if (d[i]) t = t && a.x[i] == (d[i] > 0 ? RL - len (a.l) : 0);
    CHK (!p8est_quadrant_touches_edge (&q, e, 1) == !t, "touches-edge", "%s edge %d", A.c_str (), e);
    Q o = a;
    for (int i = 0; i < 3; ++i) if (d[i] && !r.chance (.2)) o.x[i] = d[i] > 0 ? RL : -len (a.l);
    t = true;
    for (int i = 0; i < 3; ++i) if (d[i]) t = t && o.x[i] == (d[i] > 0 ? RL : -len (a.l));
    p4est_quadrant_t oq = lib (o);
    CHK (!p8est_quadrant_touches_edge (&oq, e, 0) == !t, "touches-edge", "%s edge %d outside", str (o).c_str (), e);
    if (a.l == 0) continue;    /* shifting is defined through siblings */
    p4est_quadrant_t up = blank (), dn = blank ();
    s = blank ();
    p8est_quadrant_shift_edge (&q, &s, &up, &dn, e);
    for (p4est_quadrant_t *z : { &s, &up, &dn }) {
      Q g = own (*z);
      bool ok = g.l >= 0 && g.l <= a.l && inroot (g);
      for (int i = 0; i < 3; ++i) if (d[i]) ok = ok && g.x[i] == (d[i] > 0 ? RL - len (g.l) : 0);
      for (int i = 0; i < 3; ++i) ok = ok && g.x[i] % len (g.l) == 0;
      CHK (ok, "shift-edge", "%s edge %d gives %s", A.c_str (), e, str (g).c_str ());
    }
    bool tin = true;
    for (int i = 0; i < 3; ++i) if (d[i]) tin = tin && a.x[i] == (d[i] > 0 ? RL - len (a.l) : 0);
    if (tin) CHK (own (s) == a, "shift-edge", "%s edge %d touches already and gives %s", A.c_str (), e, str (own (s)).c_str ());
    p4est_quadrant_t s2 = blank ();
    p8est_quadrant_shift_edge (&q, &s2, nullptr, nullptr, e);
    CHK (own (s2) == own (s), "shift-edge", "%s edge %d depends on the optional outputs", A.c_str (), e);
  }
#endif
  for (int c = 0; c < NC; ++c) {
    int d[3] = { 0, 0, 0 };
    for (int i = 0; i < DIM; ++i) d[i] = c >> i & 1 ? 1 : -1;
    Q nb = moved (a, d);
    const std::string W = A + " corner " + std::to_string (c);
    s = blank (); p4est_quadrant_corner_neighbor (&q, c, &s);
    EQ (s, nb, "corner-neighbor", W);
    if (a.l < QML) {
      s = blank (); p4est_quadrant_half_corner_neighbor (&q, c, &s);
      EQ (s, child (nb, NC - 1 - c), "half-corner", W);
    }
    Q node = a; node.l = ML;
    for (int i = 0; i < DIM; ++i) node.x[i] += (c >> i & 1) * len (a.l);
    s = blank (); p4est_quadrant_corner_node (&q, c, &s);
    EQ (s, node, "corner-node", W);
    p4est_qcoord_t co[3];
    p4est_quadrant_corner_coordinates (&q, c, co);
    for (int i = 0; i < DIM; ++i) CHK (co[i] == node.x[i], "corner-coordinates", "%s axis %d: %d", W.c_str (), i, co[i]);
    bool t = true;
    for (int i = 0; i < DIM; ++i) t = t && a.x[i] == (c >> i & 1 ? RL - len (a.l) : 0);
    CHK (!p4est_quadrant_touches_corner (&q, c, 1) == !t, "touches-corner", "%s inside", W.c_str ());
    s = blank ();
    if (a.l > 0) p4est_quadrant_shift_corner (&q, &s, c); else s = q;
    Q g = own (s);
    bool ok = g.l >= 0 && g.l <= a.l && untouched (s) | 1;
    for (int i = 0; i < DIM; ++i) ok = ok && g.x[i] == (c >> i & 1 ? RL - len (g.l) : 0);
    CHK (ok && (!t || g == a), "shift-corner", "%s gives %s", W.c_str (), str (g).c_str ());
    for (int in = 0; in < 2; ++in) {
      s = lib (a); p4est_quadrant_transform_corner (&s, c, in);
      Q e = a;
      for (int i = 0; i < DIM; ++i) e.x[i] = in ? (c >> i & 1 ? RL - len (a.l) : 0) : (c >> i & 1 ? RL : -len (a.l));
      EQ (s, e, "transform-corner", W);
      CHK (p4est_quadrant_touches_corner (&s, c, in), "touches-corner", "%s placed %d", W.c_str (), in);
      for (int c2 = 0; c2 < NC; ++c2)
        CHK (!p4est_quadrant_touches_corner (&s, c2, in) == !(c2 == c || (in && a.l == 0)), "touches-corner", "%s placed %d at %d", W.c_str (), in, c2);
    }
    /* nodes */
    p4est_quadrant_t n = lib (node);
    CHK (p4est_quadrant_is_node (&n, 0), "is-node", "%s", W.c_str ());
    p4est_quadrant_t cl = blank (), un;
    p4est_node_clamp_inside (&n, &cl);
    Q ce = node; for (int i = 0; i < DIM; ++i) if (ce.x[i] == RL) ce.x[i] = RL - 1;
    EQ (cl, ce, "node-clamp", W);
    CHK (p4est_quadrant_is_node (&cl, 1), "is-node", "%s clamped", W.c_str ());
    bool hi = !(ce == node);
    if (hi) CHK (!p4est_quadrant_is_node (&n, 1) && !p4est_quadrant_is_node (&cl, 0), "is-node", "%s clamping confused", W.c_str ());
    un = cl; p4est_node_unclamp (&un);
    EQ (un, node, "node-unclamp", W);
    /* points of the boundary: which corners and edges of the tree they are */
    {
      Q bn = node;
      for (int i = 0; i < DIM; ++i) if (r.chance (.6)) bn.x[i] = r.below (2) ? RL : 0;
      for (int in = 0; in < 2; ++in) {
        Q z = bn; if (in) for (int i = 0; i < DIM; ++i) if (z.x[i] == RL) z.x[i] = RL - 1;
        p4est_quadrant_t zn = lib (z);
        for (int k = 0; k < NC; ++k) {
          bool at = true; for (int i = 0; i < DIM; ++i) at = at && z.x[i] == (k >> i & 1 ? RL - in : 0);
          CHK (!p4est_quadrant_touches_corner (&zn, k, in) == !at, "node-touches-corner", "%s corner %d inside %d", str (z).c_str (), k, in);
        }
#ifdef P4_TO_P8
        for (int e = 0; e < 12; ++e) {
          int ax = e / 4, b0 = ax == 0 ? 1 : 0, b1 = ax == 2 ? 1 : 2;
          bool at = z.x[b0] == (e & 1 ? RL - in : 0) && z.x[b1] == (e & 2 ? RL - in : 0);
          CHK (!p8est_quadrant_touches_edge (&zn, e, in) == !at, "node-touches-edge", "%s edge %d inside %d", str (z).c_str (), e, in);
        }
#endif
      }
      s = n; p4est_quadrant_transform_corner (&s, c, 0);
      Q e = node; for (int i = 0; i < DIM; ++i) e.x[i] = c >> i & 1 ? RL : 0;
      EQ (s, e, "node-transform-corner", W);
    }
    int lv = r.range (0, QML);
    s = blank (); p4est_node_to_quadrant (&cl, lv, &s);
    Q nq = ancestor (ce, lv);
    EQ (s, nq, "node-to-quadrant", W);
    CHK (p4est_quadrant_contains_node (&s, &cl), "contains-node", "%s at level %d", W.c_str (), lv);
    bool in = true;
    for (int i = 0; i < DIM; ++i) in = in && ce.x[i] >= a.x[i] && ce.x[i] < a.x[i] + len (a.l);
    CHK (!p4est_quadrant_contains_node (&q, &cl) == !in, "contains-node", "%s its corner", W.c_str ());
    count ("nodes");
  }
  {
    p4est_qcoord_t co[3];
    p4est_quadrant_volume_coordinates (&q, co);
    for (int i = 0; i < DIM; ++i) CHK (co[i] == a.x[i] + len (a.l) / 2, "volume-coordinates", "%s axis %d: %d", A.c_str (), i, co[i]);
  }
  /* linear ids */
  u128 k = mort (a);
  int maxlin = DIM == 2 ? QML : P4EST_OLD_MAXLEVEL;
  for (int rep = 0; rep < 3; ++rep) {
    int l = rep == 0 ? std::min (a.l, maxlin) : r.range (0, maxlin);
    u64 e = (u64) (k / span (l));
    u64 id = p4est_quadrant_linear_id (&q, l);
    CHK (id == e, "linear-id", "%s level %d: %llu not %llu", A.c_str (), l, (unsigned long long) id, (unsigned long long) e);
    if (l > P4EST_OLD_QMAXLEVEL) continue;
    s = blank (); p4est_quadrant_set_morton (&s, l, e);
    Q x = l <= a.l ? ancestor (a, l) : corner_desc (a, 0, l);
    EQ (s, x, "set-morton", A + " level " + std::to_string (l));
  }
  for (int rep = 0; rep < 3; ++rep) {
    int l = rep == 0 ? a.l : r.range (0, QML);
    u128 e = k / span (l);
    p4est_lid_t id;
    s = blank ();
#ifdef P4_TO_P8
    p8est_quadrant_linear_id_ext128 (&q, l, &id);
    CHK (id.high_bits == (u64) (e >> 64) && id.low_bits == (u64) e, "linear-id-ext", "%s level %d", A.c_str (), l);
    p8est_quadrant_set_morton_ext128 (&s, l, &id);
#else
    p4est_quadrant_linear_id_ext128 (&q, l, &id);
    CHK (id == (u64) e, "linear-id-ext", "%s level %d", A.c_str (), l);
    p4est_quadrant_set_morton_ext128 (&s, l, &id);
#endif
    Q x = l <= a.l ? ancestor (a, l) : corner_desc (a, 0, l);
    EQ (s, x, "set-morton-ext", A + " level " + std::to_string (l));
  }
  if (a.l) {
    Q n = a;
    bool last = true, first = true;
    for (int i = 0; i < DIM; ++i) { last = last && a.x[i] == RL - len (a.l); first = first && a.x[i] == 0; }
    if (!last) {
      Q c = a; while (cid (c, c.l) == NC - 1) c = ancestor (c, c.l - 1);
      n = corner_desc (child (ancestor (c, c.l - 1), cid (c, c.l) + 1), 0, a.l);
      s = blank (); p4est_quadrant_successor (&q, &s);
      EQ (s, n, "successor", A);
      if (r.chance (.3)) { s = lib (a); p4est_quadrant_successor (&s, &s); EQ (s, n, "successor-alias", A); }
    }
    if (!first) {
      Q c = a; while (cid (c, c.l) == 0) c = ancestor (c, c.l - 1);
      n = corner_desc (child (ancestor (c, c.l - 1), cid (c, c.l) - 1), NC - 1, a.l);
      s = blank (); p4est_quadrant_predecessor (&q, &s);
      EQ (s, n, "predecessor", A);
    }
  }
#ifdef P4_TO_P8
  {
    sc_rand_state_t st = 1, st2 = 2;
    p4est_quadrant_srand (&q, &st);
    p4est_quadrant_t q2 = q; memset (&q2.p, 1, sizeof q2.p);
    p4est_quadrant_srand (&q2, &st2);
    CHK (st == st2, "srand", "%s", A.c_str ());
  }
#endif
  count ("unary_valid");
}

/* an extended quadrant */
void unary_ext (Rng & r, const Q & a)
{
  const std::string A = str (a);
  p4est_quadrant_t q = lib (a), s;
  bool in = inroot (a);
  int nout = 0;
  for (int i = 0; i < DIM; ++i) nout += a.x[i] < 0 || a.x[i] >= RL;
  CHK (p4est_quadrant_is_extended (&q), "extended", "%s", A.c_str ());
  /* linear ids and back, in and around the tree */
  {
    p4est_quadrant_t s = blank ();
    if (a.l <= P4EST_OLD_QMAXLEVEL) {
      p4est_quadrant_set_morton (&s, a.l, p4est_quadrant_linear_id (&q, a.l));
      EQ (s, a, "linear-id-inverse", A);
    }
    p4est_lid_t id;
    s = blank ();
#ifdef P4_TO_P8
    p8est_quadrant_linear_id_ext128 (&q, a.l, &id);
    p8est_quadrant_set_morton_ext128 (&s, a.l, &id);
#else
    p4est_quadrant_linear_id_ext128 (&q, a.l, &id);
    p4est_quadrant_set_morton_ext128 (&s, a.l, &id);
#endif
    EQ (s, a, "linear-id-ext-inverse", A);
    count ("linear_id_inverses");
  }
  CHK (p4est_quadrant_is_inside_3x3 (&q), "inside-3x3", "%s", A.c_str ());
  CHK (!p4est_quadrant_is_valid (&q) == !in, "valid", "%s", A.c_str ());
  CHK (!p4est_quadrant_is_inside_root (&q) == !in, "inside-root", "%s", A.c_str ());
  CHK (!p4est_quadrant_is_outside_face (&q) == !(nout == 1), "outside-face", "%s", A.c_str ());
  CHK (!p4est_quadrant_is_outside_corner (&q) == !(nout == DIM), "outside-corner", "%s", A.c_str ());
#ifdef P4_TO_P8
  CHK (!p8est_quadrant_is_outside_edge (&q) == !(nout == 2), "outside-edge", "%s", A.c_str ());
  {
    bool near = true;
    for (int i = 0; i < 3; ++i) near = near && ((a.x[i] >= 0 && a.x[i] < RL) || a.x[i] == RL || a.x[i] == -len (a.l));
    if (near) {
      int e = -5, want = -5;
      if (nout == 2) {
        int ax = a.x[0] >= 0 && a.x[0] < RL ? 0 : a.x[1] >= 0 && a.x[1] < RL ? 1 : 2;
        int b0 = ax == 0 ? 1 : 0, b1 = ax == 2 ? 1 : 2;
        want = 4 * ax + (a.x[b0] >= RL) + 2 * (a.x[b1] >= RL);
      }
      int ret = p8est_quadrant_is_outside_edge_extra (&q, &e);
      CHK (!ret == !(nout == 2) && e == want, "outside-edge", "%s gives edge %d not %d", A.c_str (), e, want);
    }
  }
#endif
  p4est_qcoord_t co[3] = { (p4est_qcoord_t) a.x[0], (p4est_qcoord_t) a.x[1], (p4est_qcoord_t) (DIM == 3 ? a.x[2] : 0) };
  bool cin = true;
  for (int i = 0; i < DIM; ++i) cin = cin && co[i] >= 0 && co[i] <= RL;
  CHK (!p4est_coordinates_is_inside_root (co) == !cin, "coordinates-inside", "%s", A.c_str ());
  CHK (!p4est_coordinates_is_valid (co, a.l) == !cin, "coordinates-valid", "%s", A.c_str ());
  {                             /* break the alignment */
    Q b = a; int i = r.below (DIM);
    i64 off = len (a.l) > 1 ? (i64) (1 + r.next () % (u64) (len (a.l) - 1)) : 0;
    b.x[i] += off;
    if (off && b.x[i] <= RL) {
      p4est_quadrant_t z = lib (b);
      p4est_qcoord_t cb[3] = { z.x, z.y,
#ifdef P4_TO_P8
        z.z
#else
        0
#endif
      };
      CHK (!p4est_quadrant_is_valid (&z) && !p4est_quadrant_is_extended (&z), "aligned", "%s", str (b).c_str ());
      CHK (!p4est_coordinates_is_valid (cb, a.l), "aligned", "coordinates of %s", str (b).c_str ());
    }
    for (int l : { -1, -5, ML, ML + 1, 127, -128 }) {
      p4est_quadrant_t z = lib (a); z.level = (int8_t) l;
      CHK (!p4est_quadrant_is_valid (&z) && !p4est_quadrant_is_extended (&z), "level-range", "%s with level %d", A.c_str (), l);
    }
    p4est_quadrant_t z = blank (); p4est_quadrant_copy (&q, &z);
    CHK (own (z) == norm (a) && untouched (z), "copy", "%s", A.c_str ());
    z = blank (); p4est_quadrant_root (&z);
    Q rt = { 0, {0, 0, 0} };
    EQ (z, rt, "root", std::string ("root"));
    z = lib (a); p4est_quadrant_pad (&z);
    CHK (own (z) == norm (a) && z.pad8 == -1 && z.pad16 == -1, "pad", "%s", A.c_str ());
  }
  CHK (p4est_quadrant_child_id (&q) == cid (a, a.l), "child-id", "%s", A.c_str ());
  for (int rep = 0; rep < 3; ++rep) {
    int l = r.range (0, a.l);
    CHK (p4est_quadrant_ancestor_id (&q, l) == cid (a, l), "ancestor-id", "%s level %d: %d", A.c_str (), l, p4est_quadrant_ancestor_id (&q, l));
    if (l < a.l) {
      s = blank (); p4est_quadrant_ancestor (&q, l, &s);
      EQ (s, ancestor (a, l), "ancestor", A + " level " + std::to_string (l));
      s = lib (a); p4est_quadrant_ancestor (&s, l, &s);
      EQ (s, ancestor (a, l), "ancestor", A + " aliased");
    }
    l = r.range (a.l, QML);
    s = blank (); p4est_quadrant_first_descendant (&q, &s, l);
    EQ (s, corner_desc (a, 0, l), "first-descendant", A);
    s = blank (); p4est_quadrant_last_descendant (&q, &s, l);
    EQ (s, corner_desc (a, NC - 1, l), "last-descendant", A);
    int c = r.below (NC);
    s = blank (); p4est_quadrant_corner_descendant (&q, &s, c, l);
    EQ (s, corner_desc (a, c, l), "corner-descendant", A);
  }
  if (a.l > 0) {
    s = blank (); p4est_quadrant_parent (&q, &s);
    EQ (s, ancestor (a, a.l - 1), "parent", A);
    s = lib (a); p4est_quadrant_parent (&s, &s);
    EQ (s, ancestor (a, a.l - 1), "parent", A + " aliased");
    for (int c = 0; c < NC; ++c) {
      s = blank (); p4est_quadrant_sibling (&q, &s, c);
      EQ (s, child (ancestor (a, a.l - 1), c), "sibling", A);
    }
  }
  if (a.l < QML) {
    p4est_quadrant_t c[NC + 1], *pc[NC];
    for (int i = 0; i < NC; ++i) {
      s = blank (); p4est_quadrant_child (&q, &s, i);
      EQ (s, child (a, i), "child", A);
    }
    for (int form = 0; form < 6; ++form) {
      for (auto & z : c) z = blank ();
      bool alias = form & 1;
      if (alias) c[0] = q;
      const p4est_quadrant_t *from = alias ? &c[0] : &q;
      for (int i = 0; i < NC; ++i) pc[i] = c + i;
      if (form / 2 == 0) p4est_quadrant_childrenv (from, c);
      else if (form / 2 == 1) p4est_quadrant_childrenpv (from, pc);
      else {
#ifdef P4_TO_P8
        p8est_quadrant_children (from, c, c + 1, c + 2, c + 3, c + 4, c + 5, c + 6, c + 7);
#else
        p4est_quadrant_children (from, c, c + 1, c + 2, c + 3);
#endif
      }
      for (int i = 0; i < NC; ++i) EQ (c[i], child (a, i), "children", A);
    }
    /* families */
    bool fam = true;
    for (int i = 0; i < NC; ++i) pc[i] = c + i;
    if (r.chance (.6)) {
      int i = r.below (NC);
      switch (r.below (4)) {
      case 0: c[i] = lib (related (r, own (c[i]))); break;
      case 1: std::swap (c[i], c[r.below (NC)]); break;
      case 2: --c[i].level; break;
      default: { Q z = own (c[i]); int ax = r.below (DIM); z.x[ax] ^= len (r.range (1, QML)); if (z.x[ax] >= -RL && z.x[ax] < 2 * RL) c[i] = lib (z); }
      }
      for (int j = 0; j < NC; ++j) fam = fam && own (c[j]) == norm (child (a, j));
      if (!fam) {               /* it may be another family */
        Q p = own (c[0]);
        if (p.l > 0) { p = ancestor (p, p.l - 1); fam = true; for (int j = 0; j < NC; ++j) fam = fam && own (c[j]) == norm (child (p, j)); }
      }
    }
    bool ext = true;
    for (int j = 0; j < NC; ++j) {
      ext = ext && p4est_quadrant_is_extended (c + j);
      Q z = own (c[j]);         /* the upper end of the box must be representable */
      for (int i = 0; i < DIM; ++i) ext = ext && z.x[i] + len (z.l) <= INT32_MAX;
    }
    if (ext) {
      count (fam ? "families" : "nonfamilies");
      CHK (!p4est_quadrant_is_familyv (c) == !fam, "familyv", "children of %s", A.c_str ());
      CHK (!p4est_quadrant_is_familypv (pc) == !fam, "familypv", "children of %s", A.c_str ());
#ifdef P4_TO_P8
      CHK (!p8est_quadrant_is_family (c, c + 1, c + 2, c + 3, c + 4, c + 5, c + 6, c + 7) == !fam, "family", "children of %s", A.c_str ());
#else
      CHK (!p4est_quadrant_is_family (c, c + 1, c + 2, c + 3) == !fam, "family", "children of %s", A.c_str ());
#endif
    }
  }
  count (in ? "ext_inside" : "ext_outside");
}

void binary_ext (Rng & r, const Q & a, const Q & b)
{
  const std::string W = str (a) + " " + str (b);
  p4est_quadrant_t q = lib (a), p = lib (b);
  p.p.which_tree = q.p.which_tree = r.below (4);
  bool eq = a == b, ov = eq || anc (a, b) || anc (b, a);
  CHK (!p4est_quadrant_is_equal (&q, &p) == !eq, "is-equal", "%s", W.c_str ());
  CHK (!p4est_quadrant_equal_fn (&q, &p, nullptr) == !eq, "equal-fn", "%s", W.c_str ());
  CHK (!p4est_quadrant_overlaps (&q, &p) == !ov, "overlaps", "%s", W.c_str ());
  int c = cmpk (a, b);
  CHK (sgn (p4est_quadrant_compare (&q, &p)) == c, "compare", "%s", W.c_str ());
  CHK (sgn (p4est_quadrant_disjoint (&q, &p)) == (ov ? 0 : c), "disjoint", "%s", W.c_str ());
  if (eq) CHK (p4est_quadrant_hash_fn (&q, nullptr) == p4est_quadrant_hash_fn (&p, nullptr), "hash", "%s", W.c_str ());
  else { count ("hash_pairs"); if (p4est_quadrant_hash_fn (&q, nullptr) == p4est_quadrant_hash_fn (&p, nullptr)) count ("hash_collisions"); }
  {
    p4est_quadrant_t u = q, v = p;
    u.p.which_tree = r.below (3); v.p.which_tree = r.chance (.5) ? u.p.which_tree : r.below (3);
    int t = sgn (u.p.which_tree - v.p.which_tree);
    CHK (sgn (p4est_quadrant_compare_piggy (&u, &v)) == (t ? t : c), "compare-piggy", "%s trees %d %d", W.c_str (), u.p.which_tree, v.p.which_tree);
    CHK (!p4est_quadrant_is_equal_piggy (&u, &v) == !(eq && !t), "equal-piggy", "%s", W.c_str ());
    u.p.piggy3.local_num = r.range (0, 3); v.p.piggy3.local_num = r.range (0, 3);
    if (r.chance (.2)) { u.p.piggy3.local_num = INT32_MAX; v.p.piggy3.local_num = r.pick ({0, INT32_MAX, INT32_MAX - 1}); }
    CHK (sgn (p4est_quadrant_compare_local_num (&u, &v)) == sgn ((i64) u.p.piggy3.local_num - v.p.piggy3.local_num), "compare-local-num", "%s", W.c_str ());
  }
  {
    p4est_qcoord_t x[3] = { (p4est_qcoord_t) a.x[0], (p4est_qcoord_t) a.x[1], (p4est_qcoord_t) (DIM == 3 ? a.x[2] : 0) };
    p4est_qcoord_t y[3] = { (p4est_qcoord_t) b.x[0], (p4est_qcoord_t) b.x[1], (p4est_qcoord_t) (DIM == 3 ? b.x[2] : 0) };
    u128 m = mort (a), n = mort (b);
    CHK (sgn (p4est_coordinates_compare (x, y)) == (m < n ? -1 : m > n), "coordinates-compare", "%s", W.c_str ());
  }
  CHK (!p4est_quadrant_is_ancestor (&q, &p) == !anc (a, b), "is-ancestor", "%s", W.c_str ());
  bool par = anc (a, b) && a.l + 1 == b.l;
  CHK (!p4est_quadrant_is_parent (&q, &p) == !par, "is-parent", "%s", W.c_str ());
  CHK (!p4est_quadrant_is_parent_D (&q, &p) == !par, "is-parent-D", "%s", W.c_str ());
  bool sib = !eq && a.l == b.l && a.l > 0 && ancestor (a, a.l - 1) == ancestor (b, a.l - 1);
  CHK (!p4est_quadrant_is_sibling (&q, &p) == !sib, "is-sibling", "%s", W.c_str ());
  CHK (!p4est_quadrant_is_sibling_D (&q, &p) == !sib, "is-sibling-D", "%s", W.c_str ());
  count (eq ? "pair_equal" : anc (a, b) ? "pair_ancestor" : anc (b, a) ? "pair_descendant" : sib ? "pair_sibling" : "pair_other");
}

void binary_valid (Rng & r, const Q & a, const Q & b)
{
  const std::string W = str (a) + " " + str (b);
  p4est_quadrant_t q = lib (a), p = lib (b), s;
  bool nxt = mort (a) + span (a.l) == mort (b);
  CHK (!p4est_quadrant_is_next (&q, &p) == !nxt, "is-next", "%s: %d", W.c_str (), p4est_quadrant_is_next (&q, &p));
  CHK (!p4est_quadrant_is_next_D (&q, &p) == !nxt, "is-next-D", "%s: %d", W.c_str (), p4est_quadrant_is_next_D (&q, &p));
  count (nxt ? "pair_next" : "pair_not_next");
  CHK (!p4est_quadrant_is_ancestor_D (&q, &p) == !anc (a, b), "is-ancestor-D", "%s", W.c_str ());
  int l = std::min (a.l, b.l);
  while (!(ancestor (a, l) == ancestor (b, l))) --l;
  s = blank (); p4est_nearest_common_ancestor (&q, &p, &s);
  EQ (s, ancestor (a, l), "nca", W);
  s = blank (); p4est_nearest_common_ancestor_D (&q, &p, &s);
  EQ (s, ancestor (a, l), "nca-D", W);
  s = lib (a); p4est_nearest_common_ancestor (&s, &p, &s);
  EQ (s, ancestor (a, l), "nca", W + " aliased");
  s = lib (b); p4est_nearest_common_ancestor (&q, &s, &s);
  EQ (s, ancestor (a, l), "nca", W + " aliased");
  if (anc (a, b)) {
    for (int f = 0; f < NF; ++f) {
      int i = f / 2;
      bool t = f & 1 ? a.x[i] + len (a.l) == b.x[i] + len (b.l) : a.x[i] == b.x[i];
      CHK (!p4est_quadrant_is_ancestor_face (&p, &q, f) == !t, "ancestor-face", "%s face %d", W.c_str (), f);
    }
    for (int c = 0; c < NC; ++c)
      CHK (!p4est_quadrant_is_ancestor_corner (&p, &q, c) == !(corner_desc (a, c, b.l) == b), "ancestor-corner", "%s corner %d", W.c_str (), c);
    /* enlargement of the descendant within the ancestor */
    for (int c : { 0, NC - 1 }) {
      int e = b.l;
      while (e > a.l && corner_desc (ancestor (b, e - 1), c, b.l) == b) --e;
      s = lib (b);
      if (c) p4est_quadrant_enlarge_last (&q, &s); else p4est_quadrant_enlarge_first (&q, &s);
      EQ (s, ancestor (b, e), "enlarge", W + (c ? " last" : " first"));
      if (e < b.l) count ("enlarged");
    }
  }
  /* ranges of smallest quadrants */
  p4est_tree_t tree;
  memset (&tree, 0, sizeof tree);
  sc_array_init (&tree.quadrants, sizeof (p4est_quadrant_t));
  CHK (!p4est_quadrant_overlaps_tree (&tree, &q) && !p4est_quadrant_is_inside_tree (&tree, &q), "tree-range", "%s empty", W.c_str ());
  sc_array_push (&tree.quadrants);
  Q fd = corner_desc (b, 0, QML), ld, x = related (r, b);
  if (!inroot (x)) x = b;
  ld = corner_desc (x, NC - 1, QML);
  if (mort (ld) < mort (fd)) { fd = corner_desc (x, 0, QML); ld = corner_desc (b, NC - 1, QML); }
  *(p4est_quadrant_t *) sc_array_index (&tree.quadrants, 0) = lib (fd);
  tree.first_desc = lib (fd); tree.last_desc = lib (ld);
  u128 f = mort (fd), e = mort (ld) + span (QML), g = mort (a), h = g + span (a.l);
  bool ov = g < e && f < h, ins = f <= g && h <= e;
  const std::string T = str (fd) + ".." + str (ld) + " " + str (a);
  CHK (!p4est_quadrant_overlaps_tree (&tree, &q) == !ov, "overlaps-tree", "%s", T.c_str ());
  CHK (!p4est_quadrant_is_inside_tree (&tree, &q) == !ins, "inside-tree", "%s: %d", T.c_str (), p4est_quadrant_is_inside_tree (&tree, &q));
  CHK (!p4est_quadrant_in_range (&tree.first_desc, &tree.last_desc, &q) == !ins, "in-range", "%s", T.c_str ());
  count (ins ? "range_inside" : ov ? "range_partial" : "range_outside");
  sc_array_reset (&tree.quadrants);
  /* first and last descendants of an ancestor */
  {
    Q top = ancestor (a, r.range (0, a.l)), u = r.chance (.6) ? corner_desc (top, 0, r.range (top.l, QML)) : a;
    Q v = r.chance (.6) ? corner_desc (top, NC - 1, r.range (top.l, QML)) : a;
    if (cmpk (u, v) > 0) std::swap (u, v);
    bool fl = mort (u) == mort (top) && mort (v) + span (v.l) == mort (top) + span (top.l);
    p4est_quadrant_t lt = lib (top), lu = lib (u), lv = lib (v);
    CHK (!p4est_quadrant_is_first_last (&lu, &lv, &lt) == !fl, "first-last", "%s %s in %s", str (u).c_str (), str (v).c_str (), str (top).c_str ());
  }
  /* nodes of two quadrants */
  {
    int clamped = r.below (2), c1 = r.below (NC), c2 = r.below (NC);
    p4est_quadrant_t u = blank (), v = blank (), w;
    p4est_quadrant_corner_node (&q, c1, &u); p4est_quadrant_corner_node (&p, c2, &v);
    if (clamped) { w = u; p4est_node_clamp_inside (&w, &u); w = v; p4est_node_clamp_inside (&w, &v); }
    u.p.which_tree = r.below (2); v.p.which_tree = r.below (2);
    bool eq = own (u) == own (v) && u.p.which_tree == v.p.which_tree;
    CHK (!p4est_node_equal_piggy_fn (&u, &v, &clamped) == !eq, "node-equal", "%s corners %d %d", W.c_str (), c1, c2);
    if (eq) CHK (p4est_node_hash_piggy_fn (&u, &clamped) == p4est_node_hash_piggy_fn (&v, &clamped), "node-hash", "%s", W.c_str ());
    if (clamped && u.p.which_tree == v.p.which_tree) {
      bool in = true; Q n = own (v);
      for (int i = 0; i < DIM; ++i) in = in && n.x[i] >= a.x[i] && n.x[i] < a.x[i] + len (a.l);
      CHK (!p4est_quadrant_contains_node (&q, &v) == !in, "contains-node", "%s corner %d", W.c_str (), c2);
    }
  }
}

/* arrays of quadrants as trees */
void arrays (Rng & r)
{
  Q root = { 0, {0, 0, 0} };
  std::vector<Q> v;
  /* a complete piece of a random subdivision */
  std::vector<Q> st = { r.chance (.5) ? root : rand_valid (r) };
  if (st[0].l == QML) st[0] = ancestor (st[0], r.range (0, QML));
  size_t cap = 2 + r.below (60);
  while (!st.empty ()) {
    Q a = st.back (); st.pop_back ();
    if (a.l < QML && v.size () + st.size () < cap && r.chance (.7)) for (int c = NC - 1; c >= 0; --c) st.push_back (child (a, c));
    else v.push_back (a);
  }
  if (r.chance (.5) && v.size () > 2) { size_t x = r.below (v.size () / 2); v.erase (v.begin (), v.begin () + x); v.resize (std::max<size_t> (1, v.size () - r.below (v.size () / 2))); }
  int muts = r.chance (.4) ? 0 : r.range (1, 2);
  for (int m = 0; m < muts; ++m) {
    size_t i = r.below (v.size ()), j = r.below (v.size ());
    switch (r.below (6)) {
    case 0: v.erase (v.begin () + i); break;
    case 1: std::swap (v[i], v[j]); break;
    case 2: v.insert (v.begin () + i, v[j]); break;
    case 3: { Q b = related (r, v[i]); if (inroot (b)) v[i] = b; break; }
    case 4: if (v[i].l > 0) v.insert (v.begin () + i, ancestor (v[i], r.range (0, v[i].l))); break;
    default: if (v[i].l < QML) v[i] = child (v[i], r.below (NC)); break;
    }
    if (v.empty ()) v.push_back (root);
  }
  bool sorted = true, linear = true, complete = true;
  for (size_t i = 0; i + 1 < v.size (); ++i) {
    sorted = sorted && cmpk (v[i], v[i + 1]) < 0;
    linear = linear && mort (v[i]) + span (v[i].l) <= mort (v[i + 1]);
    complete = complete && mort (v[i]) + span (v[i].l) == mort (v[i + 1]);
  }
  linear = linear && sorted;
  p4est_tree_t tree;
  memset (&tree, 0, sizeof tree);
  sc_array_init (&tree.quadrants, sizeof (p4est_quadrant_t));
  for (const Q & a : v) { *(p4est_quadrant_t *) sc_array_push (&tree.quadrants) = lib (a); ++tree.quadrants_per_level[a.l]; tree.maxlevel = (int8_t) std::max ((int) tree.maxlevel, a.l); }
  std::string D;
  for (size_t i = 0; i < v.size () && i < 12; ++i) D += str (v[i]);
  CHK (!p4est_tree_is_sorted (&tree) == !sorted, "tree-sorted", "%zu %s", v.size (), D.c_str ());
  CHK (!p4est_tree_is_linear (&tree) == !linear, "tree-linear", "%zu %s", v.size (), D.c_str ());
  CHK (!p4est_tree_is_complete (&tree) == !complete, "tree-complete", "%zu %s: %d", v.size (), D.c_str (), p4est_tree_is_complete (&tree));
  for (int k = 0; k < 2; ++k)
    CHK (!p4est_tree_is_almost_sorted (&tree, k) == !(k ? linear : sorted), "almost-sorted", "%d %zu %s", k, v.size (), D.c_str ());
  count (complete ? "arrays_complete" : linear ? "arrays_linear" : sorted ? "arrays_sorted" : "arrays_unsorted");
  /* checksum of the array and of its tail: independent of everything but coordinates and levels */
  {
    size_t first = r.below (v.size () + 1);
    sc_array_t *ca = sc_array_new (4), tail;
    unsigned c1 = p4est_quadrant_checksum (&tree.quadrants, r.chance (.5) ? nullptr : ca, first);
    sc_array_init (&tail, sizeof (p4est_quadrant_t));
    for (size_t i = first; i < v.size (); ++i) { p4est_quadrant_t *z = (p4est_quadrant_t *) sc_array_push (&tail); *z = lib (v[i]); memset (&z->p, 3, sizeof z->p); }
    unsigned c2 = p4est_quadrant_checksum (&tail, ca, 0);
    CHK (c1 == c2, "array-checksum", "from %zu: %s", first, D.c_str ());
    CHK (ca->elem_count == (v.size () - first) * (DIM + 1), "array-checksum", "size of the temporary");
    sc_array_reset (&tail); sc_array_destroy (ca);
  }
  /* outside a corner or edge the order within one outside region may vary */
  {
    std::vector<Q> w;
    int sh[3] = { 0, 0, 0 }; int nz = 0;
    for (int i = 0; i < DIM; ++i) { sh[i] = r.range (-1, 1); nz += sh[i] != 0; }
    for (Q a : v) { for (int i = 0; i < DIM; ++i) a.x[i] += sh[i] * RL; w.push_back (a); }
    for (size_t i = 0; i < w.size (); ++i) *(p4est_quadrant_t *) sc_array_index (&tree.quadrants, i) = lib (w[i]);
    for (int k = 0; k < 2; ++k)
      CHK (!p4est_tree_is_almost_sorted (&tree, k) == !(nz >= 2 || (k ? linear : sorted)), "almost-sorted", "outside %d %d %d, %d: %s", sh[0], sh[1], sh[2], k, D.c_str ());
  }
  sc_array_reset (&tree.quadrants);
}

/* remove overlaps from a sorted tree: the leaves without descendants in the list remain */
void linearize (Rng & r, p4est_t * p)
{
  std::vector<Q> v;
  int n = r.range (0, 40);
  Q a = rand_valid (r);
  for (int i = 0; i < n; ++i) { v.push_back (a); Q b = related (r, a); a = inroot (b) ? b : rand_valid (r); }
  std::sort (v.begin (), v.end (), [] (const Q & x, const Q & y) { return cmpk (x, y) < 0; });
  p4est_tree_t tree;
  memset (&tree, 0, sizeof tree);
  sc_array_init (&tree.quadrants, sizeof (p4est_quadrant_t));
  size_t before = p->user_data_pool ? p->user_data_pool->elem_count : 0;
  for (size_t i = 0; i < v.size (); ++i) {
    p4est_quadrant_t *z = (p4est_quadrant_t *) sc_array_push (&tree.quadrants);
    *z = lib (v[i]);
    z->p.user_data = nullptr;
    p4est_quadrant_init_data (p, 0, z, nullptr);
    if (p->data_size) fill_bytes (z->p.user_data, p->data_size, hcomb ((u64) mort (v[i]), v[i].l));
    ++tree.quadrants_per_level[v[i].l];
    tree.maxlevel = (int8_t) std::max ((int) tree.maxlevel, v[i].l);
  }
  std::vector<Q> e;
  for (size_t i = 0; i < v.size (); ++i) {
    bool keep = true;
    for (size_t j = 0; j < v.size (); ++j) if (anc (v[i], v[j]) || (v[i] == v[j] && j > i)) keep = false;
    if (keep) e.push_back (v[i]);
  }
  size_t rem = p4est_linearize_tree (p, &tree);
  std::string D;
  for (size_t i = 0; i < v.size () && i < 12; ++i) D += str (v[i]);
  CHK (rem == v.size () - e.size () && tree.quadrants.elem_count == e.size (), "linearize", "%zu of %zu removed, expected %zu: %s", rem, v.size (), v.size () - e.size (), D.c_str ());
  int per[P4EST_MAXLEVEL + 1] = { 0 }, mx = 0;
  for (size_t i = 0; i < std::min (e.size (), tree.quadrants.elem_count); ++i) {
    p4est_quadrant_t *z = (p4est_quadrant_t *) sc_array_index (&tree.quadrants, i);
    CHK (own (*z) == norm (e[i]), "linearize", "entry %zu is %s not %s", i, str (own (*z)).c_str (), str (e[i]).c_str ());
    if (p->data_size) CHK (check_bytes (z->p.user_data, p->data_size, hcomb ((u64) mort (e[i]), e[i].l)), "linearize-data", "entry %zu %s", i, str (e[i]).c_str ());
    ++per[e[i].l]; mx = std::max (mx, e[i].l);
  }
  for (int l = 0; l <= QML; ++l) CHK (tree.quadrants_per_level[l] == per[l], "linearize-count", "level %d", l);
  if (!e.empty ()) CHK (tree.maxlevel == mx, "linearize-count", "maximum level %d not %d", tree.maxlevel, mx);
  for (size_t i = 0; i < tree.quadrants.elem_count; ++i) p4est_quadrant_free_data (p, (p4est_quadrant_t *) sc_array_index (&tree.quadrants, i));
  if (p->user_data_pool) CHK (p->user_data_pool->elem_count == before, "linearize-leak", "%zu data elements, before %zu", p->user_data_pool->elem_count, before);
  sc_array_reset (&tree.quadrants);
  count ("linearized_removed", (long) rem);
  count ("linearized_kept", (long) e.size ());
}

#ifdef P4_TO_P8
typedef p8est_lid_t lid;
lid mk (u128 v) { lid l; p8est_lid_init (&l, (u64) (v >> 64), (u64) v); return l; }
u128 val (const lid & l) { return (u128) l.high_bits << 64 | l.low_bits; }
const int LB = 128;
#define LID(f) p8est_lid_##f
#else
typedef p4est_lid_t lid;
lid mk (u128 v) { lid l; p4est_lid_init (&l, 0, (u64) v); return l; }
u128 val (const lid & l) { return l; }
const int LB = 64;
#define LID(f) p4est_lid_##f
#endif
u128 cut (u128 v) { return LB == 128 ? v : (u128) (u64) v; }
void lids (Rng & r)
{
  auto rnd = [&] () {
    u128 v = (u128) r.next () << 64 | r.next ();
    switch (r.below (5)) {
    case 0: v >>= r.below (128); break;
    case 1: v = ~(u128) 0 >> r.below (128); break;
    case 2: v = (u128) 1 << r.below (128); break;
    case 3: v = (u64) v; break;
    }
    return cut (v);
  };
  u128 a = rnd (), b = r.chance (.15) ? a : rnd ();
  lid x = mk (a), y = mk (b), z;
#define L(exp, key) CHK (val (z) == cut (exp), "lid-" key, "%016llx%016llx %016llx%016llx", (unsigned long long) (a >> 64), (unsigned long long) a, (unsigned long long) (b >> 64), (unsigned long long) b)
  CHK (val (x) == a, "lid-init", "init");
  CHK (sgn (LID (compare) (&x, &y)) == (a < b ? -1 : a > b), "lid-compare", "%016llx%016llx %016llx%016llx", (unsigned long long) (a >> 64), (unsigned long long) a, (unsigned long long) (b >> 64), (unsigned long long) b);
  CHK (!LID (is_equal) (&x, &y) == !(a == b), "lid-equal", "equal");
  LID (copy) (&x, &z); L (a, "copy");
  LID (set_zero) (&z); L (0, "zero");
  LID (set_one) (&z); L (1, "one");
  LID (set_uint64) (&z, (u64) a); L ((u64) a, "uint64");
  LID (add) (&x, &y, &z); L (a + b, "add");
  z = x; LID (add_inplace) (&z, &y); L (a + b, "add");
  z = x; LID (add_inplace) (&z, &z); L (a + a, "add");
  if (a >= b) { LID (sub) (&x, &y, &z); L (a - b, "sub"); z = x; LID (sub_inplace) (&z, &y); L (a - b, "sub"); }
  else { LID (sub) (&y, &x, &z); L (b - a, "sub"); z = y; LID (sub_inplace) (&z, &x); L (b - a, "sub"); }
  LID (bitwise_neg) (&x, &z); L (~a, "neg");
  LID (bitwise_or) (&x, &y, &z); L (a | b, "or");
  LID (bitwise_and) (&x, &y, &z); L (a & b, "and");
  z = x; LID (bitwise_or_inplace) (&z, &y); L (a | b, "or");
  z = x; LID (bitwise_and_inplace) (&z, &y); L (a & b, "and");
  int s = r.chance (.3) ? r.pick ({0, 1, 63, 64, 65, LB - 1, LB}) : r.below (LB + 1);
  if (LB == 64 && s >= LB) s = LB - 1;
  LID (shift_right) (&x, s, &z); L (s >= 128 ? 0 : a >> s, "right");
  LID (shift_left) (&x, s, &z); L (s >= 128 ? 0 : a << s, "left");
  z = x; LID (shift_right) (&z, s, &z); L (s >= 128 ? 0 : a >> s, "right");
  z = x; LID (shift_left) (&z, s, &z); L (s >= 128 ? 0 : a << s, "left");
  int bit = r.below (LB);
  CHK (!LID (chk_bit) (&x, bit) == !(a >> bit & 1), "lid-chk", "bit %d", bit);
  z = x; LID (set_bit) (&z, bit); L (a | (u128) 1 << bit, "set-bit");
  count ("lid_ops");
#undef L
}

void prop (Rng & r)
{
  /* rank-local work with rank-dependent input */
  u64 s0 = r.s;
  r.s = hcomb (r.s, run.rank);
  int n = run.tier ? 500 : 200;
  std::string nm;
  for (int i = 0; i < n; ++i) {
    Q a = norm (rand_valid (r));
    unary_valid (r, a);
    unary_ext (r, a);
    Q x = norm (exterior (r, a));
    unary_ext (r, x);
    Q b = norm (related (r, a));
    binary_ext (r, a, b); binary_ext (r, b, a);
    if (inroot (b)) { binary_valid (r, a, b); binary_valid (r, b, a); }
    Q y = norm (related (r, x));
    binary_ext (r, x, y); binary_ext (r, y, a);
    for (int k = 0; k < 4; ++k) lids (r);
    arrays (r);
    if (run.rank == 0 && i % 20 == 0) distinct_state (hcomb ((u64) mort (a), hcomb ((u64) mort (b), a.l * 64 + b.l)));
  }
  r.s = s0;
  p4est_connectivity_t *c = gen_conn (r, ConnOpts (), nm);
  size_t ds = r.pick ({0, 1, 8, 33});
  p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, c, 0, 0, 1, ds, nullptr, nullptr);
  r.s = hcomb (r.s, run.rank);
  for (int i = 0; i < 60; ++i) linearize (r, p);
  r.s = mix64 (s0 + 5);
  p4est_destroy (p);
  p4est_connectivity_destroy (c);
  describe ("%d quadrants and pairs", n);
  ++run.judged;
}
}
REGISTER_PROP ("C19", prop)

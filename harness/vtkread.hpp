/* Reader of VTK XML files in all formats of the writers. */
#pragma once
#include "core.hpp"
#include <zlib.h>
#include <unistd.h>
namespace {
/* ------------------------------------------------------------------- XML */
struct Node
{
  std::string name, text;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<Node> kids;
  const std::string *get (const char *k) const { for (auto & a : attr) if (a.first == k) return &a.second; return nullptr; }
  std::string at (const char *k) const { auto g = get (k); return g ? *g : std::string (); }
};
struct Xml
{
  const std::string & s; size_t p = 0; std::string err;
  explicit Xml (const std::string & t) : s (t) { }
  void ws () { while (p < s.size () && isspace ((unsigned char) s[p])) ++p; }
  bool fail (const char *w) { if (err.empty ()) err = std::string (w) + " at byte " + std::to_string (p); return false; }
  bool lit (const char *l) { size_t n = strlen (l); if (s.compare (p, n, l)) return false; p += n; return true; }
  std::string word () { size_t b = p; while (p < s.size () && (isalnum ((unsigned char) s[p]) || strchr ("_-.:", s[p]))) ++p; return s.substr (b, p - b); }
  bool elem (Node & n)
  {
    if (!lit ("<")) return fail ("no element");
    n.name = word ();
    if (n.name.empty ()) return fail ("no element name");
    for (;;) {
      size_t b = p; ws ();
      if (lit ("/>")) return true;
      if (lit (">")) break;
      if (b == p) return fail ("no space before an attribute");
      std::string k = word ();
      if (k.empty () || !lit ("=\"")) return fail ("bad attribute");
      size_t e = s.find ('"', p);
      if (e == std::string::npos) return fail ("open attribute");
      if (n.get (k.c_str ())) return fail ("repeated attribute");
      n.attr.push_back ({ k, s.substr (p, e - p) });
      p = e + 1;
    }
    for (;;) {
      size_t e = s.find ('<', p);
      if (e == std::string::npos) return fail ("unclosed element");
      n.text += s.substr (p, e - p);
      p = e;
      if (lit ("</")) {
        if (word () != n.name) return fail ("mismatched closing element");
        ws ();
        return lit (">") ? true : fail ("bad closing element");
      }
      n.kids.emplace_back ();
      if (!elem (n.kids.back ())) return false;
    }
  }
  bool doc (Node & n)
  {
    if (!lit ("<?xml version=\"1.0\"?>")) return fail ("no XML declaration");
    ws ();
    if (!elem (n)) return false;
    ws ();
    return p == s.size () ? true : fail ("trailing content");
  }
};
bool slurp (const std::string & f, std::string & out)
{
  out.clear ();
  FILE *h = fopen (f.c_str (), "rb"); if (!h) return false;
  char b[65536]; size_t n;
  while ((n = fread (b, 1, sizeof b, h)) > 0) out.append (b, n);
  fclose (h);
  return true;
}
int b64v (char c)
{
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  return c == '+' ? 62 : c == '/' ? 63 : -1;
}
/* decodes one padded group of characters starting at p giving at least want bytes; false if malformed */
bool b64 (const std::string & s, size_t & p, size_t want, std::string & out)
{
  out.clear ();
  while (out.size () < want) {
    if (p + 4 > s.size ()) return false;
    int v[4], pad = 0;
    for (int i = 0; i < 4; ++i) { char c = s[p + i]; if (c == '=') { if (i < 2) return false; ++pad; v[i] = 0; } else { if (pad) return false; if ((v[i] = b64v (c)) < 0) return false; } }
    p += 4;
    out += (char) (v[0] << 2 | v[1] >> 4);
    if (pad < 2) out += (char) ((v[1] & 15) << 4 | v[2] >> 2);
    if (pad < 1) out += (char) ((v[2] & 3) << 6 | v[3]);
    if (pad && out.size () < want) return false;
  }
  return out.size () == want;
}
u64 rd32 (const std::string & s, size_t i) { uint32_t v; memcpy (&v, s.data () + 4 * i, 4); return v; }
/* raw bytes of a binary data array */
bool raw_array (const Node & d, bool comp, std::string & out, std::string & why)
{
  std::string t;
  for (char c : d.text) if (!isspace ((unsigned char) c)) t += c;
  size_t p = 0; std::string h;
  out.clear ();
  if (!comp) {
    /* length and data in one encoding */
    size_t q = 0;
    if (t.size () < 8) { why = "no length"; return false; }
    std::string first; std::string enc = t.substr (0, 8); 
    { size_t z = 0; std::string tmp; int pad = 0; for (char c : enc) if (c == '=') ++pad;
      if (!b64 (enc, z, 6 - pad, tmp)) { why = "malformed length"; return false; } first = tmp; }
    if (first.size () < 4) { why = "short length"; return false; }
    u64 n = rd32 (first, 0);
    if (!b64 (t, q, n + 4, h)) { why = "malformed data of length " + std::to_string (n); return false; }
    if (q != t.size ()) { why = "excess data"; return false; }
    out = h.substr (4);
    return true;
  }
  std::string head;
  { size_t z = 0; if (t.size () < 16 || !b64 (t, z, 12, head)) { why = "malformed compression header"; return false; } }
  u64 nb = rd32 (head, 0);
  if (nb > t.size ()) { why = "absurd block count"; return false; }
  if (!b64 (t, p, 12 + 4 * nb, head)) { why = "malformed compression header"; return false; }
  u64 bs = rd32 (head, 1), ls = rd32 (head, 2), tot = 0;
  for (u64 i = 0; i < nb; ++i) tot += rd32 (head, 3 + i);
  std::string z;
  if (tot > t.size ()) { why = "absurd block sizes"; return false; }
  if (!b64 (t, p, tot, z)) { why = "malformed compressed data"; return false; }
  if (p != t.size ()) { why = "excess data"; return false; }
  size_t pos = 0;
  for (u64 i = 0; i < nb; ++i) {
    uLongf n = (i + 1 == nb && ls) ? ls : bs;
    std::string b (n + 1, 0); uLongf m = n + 1;
    int rc = uncompress ((Bytef *) &b[0], &m, (const Bytef *) z.data () + pos, rd32 (head, 3 + i));
    if (rc != Z_OK || m != n) { why = "block does not decompress to its size"; return false; }
    out.append (b.data (), n);
    pos += rd32 (head, 3 + i);
  }
  return true;
}
bool numbers (const Node & d, int v, std::vector<double> & out, std::string & why)
{
  out.clear ();
  std::string ty = d.at ("type");
  if (d.at ("format") != (v == 1 ? "ascii" : "binary")) { why = "wrong format"; return false; }
  if (v == 1) {
    const char *c = d.text.c_str (); char *e;
    for (;;) {
      while (isspace ((unsigned char) *c)) ++c;
      if (!*c) return true;
      double x = strtod (c, &e);
      if (e == c || (*e && !isspace ((unsigned char) *e))) { why = "not a number"; return false; }
      out.push_back (x);
      c = e;
    }
  }
  std::string b;
  if (!raw_array (d, v == 0, b, why)) return false;
  size_t sz = ty == "Float32" || ty == "Int32" ? 4 : ty == "Float64" || ty == "Int64" ? 8 : ty == "UInt8" ? 1 : 0;
  if (!sz || b.size () % sz) { why = "size does not fit the type " + ty; return false; }
  for (size_t i = 0; i < b.size (); i += sz) {
    if (ty == "Float32") { float x; memcpy (&x, &b[i], 4); out.push_back (x); }
    else if (ty == "Float64") { double x; memcpy (&x, &b[i], 8); out.push_back (x); }
    else if (ty == "Int32") { int32_t x; memcpy (&x, &b[i], 4); out.push_back (x); }
    else if (ty == "Int64") { int64_t x; memcpy (&x, &b[i], 8); out.push_back ((double) x); }
    else out.push_back ((uint8_t) b[i]);
  }
  return true;
}

const Node *child (const Node & n, const char *name, int & times)
{
  const Node *f = nullptr; times = 0;
  for (auto & k : n.kids) if (k.name == name) { f = &k; ++times; }
  return f;
}
const Node *array (const Node & n, const std::string & name)
{
  const Node *f = nullptr;
  for (auto & k : n.kids) if ((k.name == "DataArray" || k.name == "PDataArray") && k.at ("Name") == name) { if (f) return nullptr; f = &k; }
  return f;
}
std::string comps_of (const Node & n) { auto g = n.get ("NumberOfComponents"); return g ? *g : "1"; }
}

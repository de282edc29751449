//@ reach: looked keyless rekeyed packed nopack printed nested mixed duplicate
//@ bounds: lists of up to 3 pairs with keys of up to 2 bytes, borrowed, copied, empty or absent, keyless values between them, integer, text and boolean values; every lookup key of up to 2 bytes; every byte of keys and values
//@ outside: longer keys and lists; other value types (their encodings are C10); nesting deeper than one level; the heap running out
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "C3PValue/KeyValuePair.h"
struct M { char key[4]; int8_t kl; uint8_t kind; uint32_t v; char txt[4]; };   // kl -1: no key, -2: not a pair at all
static void gen_key(M* m) { memset(m->key, 0, 4); m->kl = (int8_t) sx_choose(4, "keylen") - 1; for (int i = 0; i < m->kl; i++) { m->key[i] = sx_u8("key"); sx_assume(m->key[i]); } }
static KeyValuePair* make(M* m, bool vals) {
  static const char* none = nullptr; bool copy = m->kl >= 0 && sx_choose(2, "copy"); char tmp[4]; memcpy(tmp, m->key, 4); char* ck = m->kl < 0 ? nullptr : tmp; const char* bk = m->kl < 0 ? none : m->key;
  memset(m->txt, 0, 4); m->v = 0; KeyValuePair* k = nullptr; m->kind = vals ? sx_choose(4, "kind") : 0;
  switch (m->kind) {
    case 0: { uint8_t x = sx_u8("u8"); m->v = x; k = copy ? new KeyValuePair(ck, x) : new KeyValuePair(bk, x); } break;
    case 1: { int16_t x = (int16_t) sx_u16("i16"); m->v = (uint32_t) (int32_t) x; k = copy ? new KeyValuePair(ck, x) : new KeyValuePair(bk, x); } break;
    case 2: { for (int i = 0; i < 2; i++) { m->txt[i] = sx_u8("chr"); sx_assume(m->txt[i]); } k = copy ? new KeyValuePair(ck, (const char*) m->txt) : new KeyValuePair(bk, (const char*) m->txt); } break;
    default: { bool x = sx_choose(2, "bool"); m->v = x; k = copy ? new KeyValuePair(ck, x) : new KeyValuePair(bk, x); }
  }
  if (copy) memset(tmp, 'Z', 3); sx_assert((k->getKey() == nullptr) == (m->kl < 0) && (m->kl < 0 || 0 == strcmp(k->getKey(), m->key)) && !k->memError(), "key of a new pair"); return k;
}
static bool same(const char* a, int al, const char* b, int bl) { return al >= 0 && al == bl && 0 == memcmp(a, b, bl); }
static int head(uint8_t* o, uint8_t mj, uint32_t v) { if (v < 24) { o[0] = mj << 5 | v; return 1; } if (v < 256) { o[0] = mj << 5 | 24; o[1] = v; return 2; } o[0] = mj << 5 | 25; o[1] = v >> 8; o[2] = v; return 3; }
static int dec(char* o, int32_t v) { char t[12]; int n = 0, l = 0; if (v < 0) o[l++] = '-'; uint32_t u = v < 0 ? (uint32_t) -v : (uint32_t) v; do { t[n++] = '0' + u % 10; u /= 10; } while (u); while (n) o[l++] = t[--n]; return l; }
static int print(char* o, const M* m, const char* what) {
  int l = 0; if (m->kl >= 0) { memcpy(o, m->key, m->kl); l = m->kl; o[l++] = ':'; o[l++] = ' '; }
  switch (m->kind) { case 0: case 1: l += dec(o + l, (int32_t) m->v); break; case 2: o[l++] = '"'; o[l++] = m->txt[0]; o[l++] = m->txt[1]; o[l++] = '"'; break; default: { const char* s = m->v ? "true" : "false"; memcpy(o + l, s, strlen(s)); l += strlen(s); } }
  return l;
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); M m[4]; KeyValuePair* k[4]; int n; uint32_t mode = sx_choose(4, "mode");
  if (mode == 0) {   // lookup
    n = 1 + sx_choose(3, "n"); KeyValuePair* top = nullptr; bool plain = sx_choose(2, "plain");
    for (int i = 0; i < n; i++) { gen_key(&m[i]); k[i] = make(&m[i], false); if (!top) top = k[i]; else { if (plain) { top->link(new C3PValue((uint8_t) 9), true); sx_reach("mixed"); } sx_assert(top->link(k[i], true) == k[i], "linking a pair"); } if (m[i].kl < 0) sx_reach("keyless"); }
    if (sx_choose(2, "rekey")) { int w = sx_choose(n, "which"); M o; gen_key(&o); char tmp[4]; memcpy(tmp, o.key, 4); memcpy(m[w].key, o.key, 4); m[w].kl = o.kl; if (o.kl >= 0 && sx_choose(2, "copy")) sx_assert(0 == k[w]->setKey(tmp), "rekey"); else sx_assert(0 == k[w]->setKey(o.kl < 0 ? (const char*) nullptr : (const char*) m[w].key), "rekey"); memset(tmp, 'Q', 3); sx_reach("rekeyed"); }
    sx_assert(top->count() == (plain ? 2 * n - 1 : n), "count of a list");
    char q[4] = {0, 0, 0, 0}; int ql = sx_choose(3, "ql"); for (int i = 0; i < ql; i++) { q[i] = sx_u8("query"); sx_assume(q[i]); }
    int start = sx_choose(n, "start"), want = -1; for (int i = start; i < n && want < 0; i++) if (same(m[i].key, m[i].kl, q, ql)) { want = i; for (int j = i + 1; j < n; j++) if (same(m[j].key, m[j].kl, q, ql)) sx_reach("duplicate"); }
    sx_assert(k[start]->valueWithKey(q) == (want < 0 ? nullptr : k[want]), "lookup gives the first pair of that key at or after the start"); sx_reach("looked");
    uint8_t b = 0x5A; int8_t r = k[start]->valueWithKey(q, &b); sx_assert((r == 0) == (want >= 0) && b == (want >= 0 ? m[want].v : 0x5A), "value by key");
    sx_assert(nullptr == k[start]->valueWithKey(nullptr), "no key, no answer");
    for (int i = 0; i + 1 < n; i++) sx_assert(k[i]->nextKVP() == k[i + 1], "next pair"); sx_assert(k[n - 1]->nextKVP() == nullptr, "end of the list");
    char all[8]; int al = 0, c = 0; for (int i = start; i < n; i++) if (m[i].kl >= 0) { memcpy(all + al, m[i].key, m[i].kl); al += m[i].kl; c++; }
    StringBuilder ks; sx_assert(k[start]->collectKeys(&ks) == c && ks.length() == al && (al == 0 || 0 == memcmp(ks.string(), all, al)), "the keys of a list, in order"); delete top;
  }
  else if (mode == 1) {   // CBOR
    n = 1 + sx_choose(THOROUGH ? 3 : 2, "n"); KeyValuePair* top = nullptr; uint8_t want[64]; int wl = 0, c = 0, idx[4];
    for (int i = 0; i < n; i++) { gen_key(&m[i]); k[i] = make(&m[i], true); if (!top) top = k[i]; else top->link(k[i], true);
      if (m[i].kl > 0) { idx[c++] = i; wl += head(want + wl, 3, m[i].kl); memcpy(want + wl, m[i].key, m[i].kl); wl += m[i].kl; switch (m[i].kind) { case 0: wl += head(want + wl, 0, m[i].v); break; case 1: wl += ((int32_t) m[i].v < 0) ? head(want + wl, 1, (uint32_t) (-1 - (int32_t) m[i].v)) : head(want + wl, 0, m[i].v); break; case 2: wl += head(want + wl, 3, 2); want[wl++] = m[i].txt[0]; want[wl++] = m[i].txt[1]; break; default: want[wl++] = m[i].v ? 0xF5 : 0xF4; } } }
    StringBuilder out; bool pre = sx_choose(2, "pre"); if (pre) out.concat("#"); int8_t r = top->serialize(&out, TCode::CBOR); uint8_t buf[80]; int l = out.length();
    sx_assert(l <= 80, "size of the packed list"); if (l) memcpy(buf, out.string(), l); int o = pre; sx_assert(l >= o && (!pre || buf[0] == '#'), "earlier output is kept");
    if (c == 0) { sx_assert(l == o && r != 0, "a list without keys packs to nothing"); sx_reach("nopack"); }
    else {
      sx_assert(r == 0 && l - o == wl + 1 && buf[o] == (0xA0 | c) && 0 == memcmp(buf + o + 1, want, wl), "a list packs to the map of its keyed pairs"); sx_reach("packed");
      KeyValuePair* d = KeyValuePair::unserialize(buf + o, l - o, TCode::CBOR); KeyValuePair* e = d; sx_assert(d && d->count() == c, "the packed list unpacks");
      for (int i = 0; i < c; i++, e = e->nextKVP()) { M* s = &m[idx[i]]; sx_assert(e && e->getKey() && 0 == strcmp(e->getKey(), s->key), "keys survive packing"); switch (s->kind) { case 2: { char* t = nullptr; sx_assert(0 == e->get_as(&t) && 0 == strcmp(t, s->txt), "text survives packing"); } break; case 3: { bool b = !s->v; sx_assert(e->tcode() == TCode::BOOLEAN && 0 == e->get_as(&b) && b == (s->v != 0), "booleans survive packing"); } break; default: { int32_t v = 0; sx_assert(0 == e->get_as(TCode::INT32, &v) && v == (int32_t) s->v, "integers survive packing"); } } }
      delete d;
    }
    delete top;
  }
  else if (mode == 2) {   // print
    n = 1 + sx_choose(2, "n"); KeyValuePair* top = nullptr; char want[64]; int wl = 0;
    for (int i = 0; i < n; i++) { gen_key(&m[i]); sx_assume(m[i].kl < 2); k[i] = make(&m[i], true); if (!top) top = k[i]; else top->link(k[i], true); wl += print(want + wl, &m[i], ""); if (i + 1 < n) want[wl++] = ','; want[wl++] = '\n'; }
    StringBuilder out; top->serialize(&out, TCode::STR); sx_assert(out.length() == wl && 0 == memcmp(out.string(), want, wl), "printed list"); delete top; sx_reach("printed");
  }
  else {   // nested
    n = 1 + sx_choose(2, "n"); KeyValuePair* in = nullptr; char want[96]; int wl = 0; memcpy(want, "top: {\n", 7); wl = 7;
    for (int i = 0; i < n; i++) { m[i].kl = 1; m[i].key[0] = 'a' + i; m[i].key[1] = 0; k[i] = make(&m[i], true); if (!in) in = k[i]; else in->link(k[i], true); want[wl++] = ' '; want[wl++] = ' '; wl += print(want + wl, &m[i], ""); if (i + 1 < n) want[wl++] = ','; want[wl++] = '\n'; }
    want[wl++] = '}'; bool more = sx_choose(2, "more"); KeyValuePair* top = new KeyValuePair("top", in); top->reapValue(sx_choose(2, "owned")); bool owned = top->reapValue(); if (more) { want[wl++] = ','; want[wl++] = '\n'; memcpy(want + wl, "z: 7", 4); wl += 4; top->append((uint8_t) 7, "z"); } want[wl++] = '\n';
    StringBuilder out; top->serialize(&out, TCode::STR); sx_assert(out.length() == wl && 0 == memcmp(out.string(), want, wl), "printed nested list"); KeyValuePair* g = nullptr; sx_assert(top->valueWithKey("top") == top && 0 == top->valueWithKey("top", &g) && g == in, "nested list by key"); delete top; if (!owned) delete in; sx_reach("nested");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

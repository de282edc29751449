//@ reach: value refused scalar bytes text array map nested wide trailing tagged vecok vecno
//@ bounds: every byte sequence of up to 4 bytes (5 thorough), every single item with its full 1, 2, 4 and 8 byte arguments, maps of up to two entries with keys of up to 2 bytes, and every tagged vector of every element type, truncated anywhere; in a builder split at every point
//@ outside: longer sequences; nesting deep enough to exhaust the stack; empty arrays and maps, simple values, null inside a map and indefinite lengths, for which the decoder has no representation and which it refuses; tags other than the vector types; text with embedded zero bytes
//@ time: 120
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "C3PValue/KeyValuePair.h"
struct Node { uint8_t kind; uint64_t v; uint8_t b[8]; int8_t next, child; bool keyed; char key[8]; };
static Node nd[16]; static int nn; static bool skip;
// Returns the first node of the value at *at, or -1; advances *at.
static int item(const uint8_t* p, int n, int* at, bool inmap) {
  uint8_t mj = 0, mn = 0; uint64_t a = 0; int h = ref_head(p + *at, n - *at, &mj, &mn, &a); if (h <= 0) return -1;
  int o = *at + h, me = -1;
  if (mj == 4) {
    if (a == 0 || a > (uint64_t) (n - o)) return -1; int c = (int) sx_concretize((uint32_t) a), last = -1;
    for (int i = 0; i < c; i++) { int x = item(p, n, &o, inmap && i == 0); if (x < 0) return -1; if (me < 0) me = x; else nd[last].next = x; for (last = x; nd[last].next >= 0; last = nd[last].next) {} }
    *at = o; return me;
  }
  if (mj == 5) {
    if (a == 0 || a > (uint64_t) (n - o) / 2) return -1; int c = (int) sx_concretize((uint32_t) a), last = -1;
    for (int i = 0; i < c; i++) {
      uint8_t km, kn; uint64_t kl; int kh = ref_head(p + o, n - o, &km, &kn, &kl); if (kh <= 0 || km != 3 || kl > (uint64_t) (n - o - kh)) return -1;
      int l = (int) sx_concretize((uint32_t) kl); char key[8]; memset(key, 0, 8); for (int j = 0; j < l; j++) { key[j] = p[o + kh + j]; if (!key[j]) { skip = true; return -1; } } o += kh + l;
      int x = item(p, n, &o, true); if (x < 0) return -1;
      if (nd[x].keyed) { int w = nn++; memset(&nd[w], 0, sizeof(Node)); nd[w].kind = 'k'; nd[w].child = x; nd[w].next = -1; x = w; }
      nd[x].keyed = true; memcpy(nd[x].key, key, 8);
      if (me < 0) me = x; else nd[last].next = x; for (last = x; nd[last].next >= 0; last = nd[last].next) {}
    }
    *at = o; return me;
  }
  me = nn++; Node* e = &nd[me]; memset(e, 0, sizeof(*e)); e->next = e->child = -1; e->v = a;
  switch (mj) {
    case 0: e->kind = 'i'; break;
    case 1: if (a >> 63) return -1; e->kind = 'j'; break;
    case 2: case 3: { if (a > (uint64_t) (n - o)) return -1; int l = (int) sx_concretize((uint32_t) a); memcpy(e->b, p + o, l); e->v = l; e->kind = mj == 2 ? 'b' : 't'; if (mj == 3) for (int j = 0; j < l; j++) if (!e->b[j]) { skip = true; return -1; } o += l; } break;
    case 6: if ((a >> 8) == 0xE9) skip = true; return -1;
    default:
      if (h == 1) { if (mn == 20 || mn == 21) e->kind = 'o'; else if (mn == 22 || mn == 23) { if (inmap) return -1; e->kind = 'n'; } else return -1; }
      else if (h == 5) e->kind = 'f'; else if (h == 9) e->kind = 'd'; else return -1;
  }
  *at = o; return me;
}
static void compare(C3PValue* c, int x, int depth) {
  for (; x >= 0; x = nd[x].next, c = c->nextValue()) {
    Node* e = &nd[x]; sx_assert(c != nullptr, "number of values"); sx_assert(c->has_key() == e->keyed, "a value has a key exactly if it was in a map");
    if (e->keyed) { sx_assert(0 == strcmp(((KeyValuePair*) c)->getKey(), e->key), "key of a value"); }
    switch (e->kind) {
      case 'i': { uint64_t u = 1; sx_assert(c->is_numeric() && 0 == c->get_as(TCode::UINT64, &u) && u == e->v, "unsigned integer"); sx_reach("scalar"); } break;
      case 'j': { int64_t u = 1; sx_assert(c->is_numeric() && 0 == c->get_as(TCode::INT64, &u) && u == (int64_t) ~e->v, "negative integer"); } break;
      case 'b': { uint8_t* b = nullptr; uint32_t l = 9; sx_assert(c->tcode() == TCode::BINARY && 0 == c->get_as(&b, &l) && l == e->v && (l == 0 || 0 == memcmp(b, e->b, l)), "byte string"); sx_reach("bytes"); } break;
      case 't': { char* s = nullptr; sx_assert(c->tcode() == TCode::STR && 0 == c->get_as(&s) && 0 == strcmp(s, (char*) e->b), "text string"); sx_reach("text"); } break;
      case 'o': { bool b = false; sx_assert(c->tcode() == TCode::BOOLEAN && 0 == c->get_as(&b) && b == (e->v == 21), "boolean"); } break;
      case 'n': sx_assert(c->tcode() == TCode::NONE, "null"); break;
      case 'f': { uint32_t w = 0; sx_assert(c->tcode() == TCode::FLOAT && 0 == c->get_as((float*) (void*) &w) && w == e->v, "single precision"); } break;
      case 'd': { uint64_t w = 0; sx_assert(c->tcode() == TCode::DOUBLE && 0 == c->get_as((double*) (void*) &w) && w == e->v, "double precision"); } break;
      case 'k': { KeyValuePair* k = nullptr; sx_assert(c->tcode() == TCode::KVP && 0 == c->get_as(&k) && k, "map in a map"); compare(k, e->child, depth + 1); sx_reach("nested"); } break;
    }
  }
  sx_assert(c == nullptr, "number of values");
}
template <typename T> static void vect(TCode tc, uint8_t tag) {
  uint8_t raw[40]; const int len = 3 * sizeof(T); int n = 0;
  raw[n++] = 0xD9; raw[n++] = 0xE9; raw[n++] = (uint8_t) tc; raw[n++] = 0xD8; raw[n++] = tag; if (len < 24) raw[n++] = 0x40 | len; else { raw[n++] = 0x58; raw[n++] = len; } int hd = n; sx_bytes(raw + n, len, "vec"); n += len;
  int total = n; int cut = sx_choose(n + 1, "cut"); n -= cut; StringBuilder sb; int k = sx_choose(2, "split") ? n / 2 : 0; if (k) sb.concat(raw, k); if (n > k) sb.concat(raw + k, n - k);
  { C3PValueDecoder d(&sb); C3PValue* v = d.next(); sx_assert((v != nullptr) == (cut == 0), "a vector is decoded exactly if it is complete");
    if (v) { Vector3<T> o; sx_assert(v->tcode() == tc && sb.length() == 0 && 0 == v->get_as(tc, &o) && 0 == memcmp(&o.x, raw + hd, sizeof(T)) && 0 == memcmp(&o.y, raw + hd + sizeof(T), sizeof(T)) && 0 == memcmp(&o.z, raw + hd + 2 * sizeof(T), sizeof(T)), "tagged vector"); sx_reach("vecok"); delete v; }
    else { sx_assert(sb.length() == n, "an incomplete vector is left alone"); sx_reach("vecno"); } }
  sx_reach("tagged"); (void) total;
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  uint8_t raw[24]; int n = 0; uint32_t shape = sx_choose(7, "shape"); nn = 0; skip = false;
  if (shape == 6) { switch (sx_choose(8, "elem")) { case 0: vect<uint8_t>(TCode::VECT_3_UINT8, 68); break; case 1: vect<uint16_t>(TCode::VECT_3_UINT16, 69); break; case 2: vect<uint32_t>(TCode::VECT_3_UINT32, 70); break; case 3: vect<int8_t>(TCode::VECT_3_INT8, 76); break;
      case 4: vect<int16_t>(TCode::VECT_3_INT16, 77); break; case 5: vect<int32_t>(TCode::VECT_3_INT32, 78); break; case 6: vect<float>(TCode::VECT_3_FLOAT, 85); break; default: vect<double>(TCode::VECT_3_DOUBLE, 86); } sx_assert(sx_heap_bytes() == heap0, "all memory returned"); return 0; }
  if (shape == 0) { n = sx_choose(THOROUGH ? 6 : 5, "n"); sx_bytes(raw, n, "raw"); }
  else if (shape < 5) { int l = 1 << (shape - 1); uint8_t mj = sx_choose(8, "major"); raw[0] = (mj << 5) | (23 + shape); sx_bytes(raw + 1, l, "arg"); n = 1 + l; if (mj >= 2 && mj <= 5) { int x = sx_choose(4, "payload"); sx_bytes(raw + n, x, "pay"); n += x; } sx_reach("wide"); }
  else { int e = 1 + sx_choose(2, "entries"); raw[n++] = 0xA0 | e; for (int i = 0; i < e; i++) { int l = sx_choose(3, "keylen"); raw[n++] = 0x60 | l; sx_bytes(raw + n, l, "key"); n += l; int w = sx_choose(e > 1 ? 4 : 6, "val"); if (w == 0) { raw[n++] = 0x42; sx_bytes(raw + n, 2, "bin"); n += 2; } else if (w == 1) { raw[n++] = 0x61; raw[n] = sx_u8("chr"); n++; } else if (w == 2) { raw[n++] = 0x18; raw[n] = sx_u8("int"); n++; } else if (w == 3) { raw[n++] = 0x82; raw[n++] = 0x41; raw[n++] = sx_u8("el"); raw[n++] = 0x61; raw[n++] = 'z'; } else if (w == 4) { raw[n++] = 0xA1; raw[n++] = 0x61; raw[n++] = 'q'; raw[n++] = 0x42; sx_bytes(raw + n, 2, "bin"); n += 2; } else { raw[n++] = sx_u8("any"); raw[n++] = sx_u8("any"); } } n -= sx_choose(3, "cut"); }
  int at = 0; int root = item(raw, n, &at, false);
  StringBuilder sb; int k = n ? sx_choose(n, "split") : 0; if (k) sb.concat(raw, k); if (n > k) sb.concat(raw + k, n - k);
  { C3PValueDecoder d(&sb); C3PValue* v = d.next();
    if (!skip) {
      sx_assert((v != nullptr) == (root >= 0), "a value is returned exactly if the input begins with a complete one");
      if (v) { compare(v, root, 0); sx_reach("value"); if (raw[0] >> 5 == 4) sx_reach("array"); if (raw[0] >> 5 == 5) sx_reach("map"); } else { at = 0; sx_reach("refused"); }
      sx_assert(sb.length() == n - at, "exactly the bytes of the value are consumed"); sx_assert(n == at || 0 == memcmp(sb.string(), raw + at, n - at), "what follows the value is left alone"); if (v && n > at) sx_reach("trailing");
    }
    if (v) delete v;
  }
  sb.clear();
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: default set refused unknown stored restored partial newer hostile decoded undecoded overwritten replaced type0 type1 type2 type3 type4 type5 type6 type7 type8 type9 type10
//@ bounds: a configuration of eleven keys of every scalar type, a string and a vector, of which any one (or none) is set to any value of its type (strings of up to 3 bytes) by key or by name; every value of another width set to a narrower key; stored and loaded into a fresh record, into one that was set otherwise, and into one that knows fewer or more keys; and payloads of up to 3 arbitrary bytes (5 thorough), and values of up to 3 (5) for the string and the 32-bit key
//@ outside: whether a record of a 64-bit value is clean when loaded; keys of type BINARY; other encodings than CBOR, which are not implemented; NaN
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Storage/RecordTypes/ConfRecord.h"
enum class K : uint8_t { A, B, C, D, E, F, G, H, I, J, S, INVALID };
#define KS(X) X(A, UINT8) X(B, UINT16) X(C, UINT32) X(D, UINT64) X(E, INT8) X(F, INT16) X(G, INT64) X(H, BOOLEAN) X(I, FLOAT) X(J, VECT_3_FLOAT) X(S, STR)
#define DEF(k, t) EnumDef<K>(K::k, "KEY_" #k, 0, (uint8_t) TCode::t),
static const EnumDef<K> KL[] = { KS(DEF) EnumDef<K>(K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE) };
static const EnumDefList<K> KD(KL, 12, "MyConf");
static const EnumDef<K> KL2[] = { DEF(S, STR) DEF(C, UINT32) EnumDef<K>(K::INVALID, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE) };
static const EnumDefList<K> KD2(KL2, 3, "MyConf");
static const EnumDefList<K> KD3(KL2, 3, "OtherConf");
typedef ConfRecordValidation<K> Conf;
struct V { uint64_t u; float f; Vector3f v; char s[4]; };
static bool same(Conf* c, K k, V* v) {
  switch (k) {
    case K::A: { uint8_t x = 77; return 0 == c->getConf(k, &x) && x == (uint8_t) v->u; } case K::B: { uint16_t x = 77; return 0 == c->getConf(k, &x) && x == (uint16_t) v->u; }
    case K::C: { uint32_t x = 77; return 0 == c->getConf(k, &x) && x == (uint32_t) v->u; } case K::D: { uint64_t x = 77; return 0 == c->getConf(k, &x) && x == v->u; }
    case K::E: { int8_t x = 77; return 0 == c->getConf(k, &x) && x == (int8_t) v->u; } case K::F: { int16_t x = 77; return 0 == c->getConf(k, &x) && x == (int16_t) v->u; }
    case K::G: { int64_t x = 77; return 0 == c->getConf(k, &x) && x == (int64_t) v->u; } case K::H: { bool x = !(v->u & 1); return 0 == c->getConf(k, &x) && x == (bool) (v->u & 1); }
    case K::I: { float x = 7; return 0 == c->getConf(k, &x) && 0 == memcmp(&x, &v->f, 4); } case K::J: { Vector3f x; return 0 == c->getConf(k, &x) && 0 == memcmp(&x.x, &v->v.x, 4) && 0 == memcmp(&x.y, &v->v.y, 4) && 0 == memcmp(&x.z, &v->v.z, 4); }
    default: { char* x = (char*) "?"; return 0 == c->getConf(k, &x) && (v->s[0] == 1 ? x == nullptr : (x && 0 == strcmp(x, v->s))); }
  }
}
static int8_t put(Conf* c, K k, V* v, bool by_name) {
  const char* n = KD.enumStr(k);
  #define PUT(x) (by_name ? ((ConfRecord*) c)->setConf(n, x) : c->setConf(k, x))
  switch (k) { case K::A: return PUT((uint8_t) v->u); case K::B: return PUT((uint16_t) v->u); case K::C: return PUT((uint32_t) v->u); case K::D: return PUT((uint64_t) v->u); case K::E: return PUT((int8_t) v->u); case K::F: return PUT((int16_t) v->u); case K::G: return PUT((int64_t) v->u); case K::H: return PUT((bool) (v->u & 1)); case K::I: return PUT(v->f); case K::J: return PUT(&v->v); default: return PUT((char*) v->s); }
}
static void zero(V* v) { v->u = 0; v->f = 0; v->v(0, 0, 0); memset(v->s, 0, 4); v->s[0] = 1; }   // No string at all.
static void any(V* v, K k) {
  if (k == K::I || k == K::J) { uint32_t w[3]; for (int i = 0; i < 3; i++) { w[i] = sx_u32("float"); sx_assume((w[i] & 0x7F800000) != 0x7F800000); } memcpy(&v->f, w, 4); memcpy(&v->v.x, w, 4); memcpy(&v->v.y, w + 1, 4); memcpy(&v->v.z, w + 2, 4); }
  else if (k == K::S) { int n = sx_choose(4, "slen"); sx_bytes(v->s, n, "s"); for (int i = 0; i < n; i++) sx_assume((uint8_t) v->s[i] > 1); v->s[n] = 0; }
  else { uint32_t a = sx_u32("lo"), b = (k == K::D || k == K::G) ? sx_u32("hi") : 0; v->u = ((uint64_t) b << 32) | a; }
}
static void all(Conf* c, K k, V* v, V* z) { for (uint8_t i = 0; i < 11; i++) sx_assert(same(c, (K) i, (K) i == k ? v : z), "each key has the value it was given, the others their default"); }
static void body() {
  uint32_t part = sx_choose(4, "part"); V v, z; zero(&v); zero(&z);
  if (part <= 1) {
    Conf c(0, &KD); sx_assert(c.keyCount() == 11, "number of keys");
    K k = (K) sx_choose(12, "key");
    if (k != K::INVALID) { any(&v, k); sx_assert(0 == put(&c, k, &v, sx_choose(2, "name")), "a key takes a value of its type"); char t[8]; sprintf(t, "type%d", (int) k); sx_reach(t); sx_reach("set"); }
    else { all(&c, k, &v, &z); sx_reach("default"); uint32_t x = 5; sx_assert(0 > c.setConf(K::INVALID, (uint32_t) 1) && 0 > c.getConf(K::INVALID, &x) && 0 > ((ConfRecord*) &c)->setConf("none", (uint32_t) 1) && x == 5, "unknown keys are refused"); sx_reach("unknown"); }
    if (part == 0) { all(&c, k, &v, &z);
      if (k == K::B || k == K::C || k == K::F) { uint32_t w = sx_u32("wide"); bool fits = (k == K::C) || (k == K::B ? w <= 0xFFFF : w <= 0x7FFF); int8_t r = c.setConf(k, w); if (!fits) { sx_assert(0 != r, "a value that a key can't hold is refused"); sx_reach("refused"); all(&c, k, &v, &z); } else { sx_assert(0 == r, "a value that a key can hold is taken"); v.u = w; all(&c, k, &v, &z); sx_reach("replaced"); } }
      return; }
    StringBuilder out; sx_assert(0 == c.save(0x55, "conf", &out), "a configuration can be saved"); sx_assert(!c.isDirty(), "and is then clean"); sx_reach("stored");
    uint32_t into = sx_choose(4, "into");
    if (into <= 1) {
      Conf d(0, &KD); V o; zero(&o); if (into) { o.s[0] = 'o'; o.s[1] = 0; for (int i = 0; i < 11; i++) { o.u = 1; put(&d, (K) i, &o, false); } sx_reach("overwritten"); }
      sx_assert(0 == d.load(0x55, &out), "it can be loaded"); sx_assert(d.wasLoaded() && d.allocated(), "loaded"); sx_reach("restored");
      if (into && k != K::S) { for (uint8_t i = 0; i < 10; i++) sx_assert(same(&d, (K) i, (K) i == k ? &v : &z), "the values replace those of before"); sx_assert(same(&d, K::S, &o), "a key without a stored value keeps its own"); }
      else { all(&d, k, &v, &z); if (k != K::D && k != K::G) sx_assert(!d.isDirty(), "a loaded record is clean"); }
      if (k == K::S) { char mine[4] = "new"; char* was = nullptr; d.getConf(K::S, &was); if (sx_choose(2, "again")) { sx_assert(0 == d.setConf(K::S, was), "its own string"); sx_assert(same(&d, K::S, &v), "still there"); } else { sx_assert(0 == d.setConf(K::S, mine), "string set over one that was loaded"); bool other = strlen(v.s) != 3; strcpy(v.s, "new"); sx_assert(same(&d, K::S, &v), "the new string"); if (other) sx_assert(d.isDirty(), "a changed configuration is dirty"); } }
    }
    else if (into == 2) { Conf d(0, &KD2); sx_assert(0 == d.load(0x55, &out), "keys that aren't known any more don't matter"); sx_assert(same(&d, K::C, k == K::C ? &v : &z) && same(&d, K::S, k == K::S ? &v : &z), "known keys are loaded"); sx_assert(d.allocated(), "no other key is taken"); sx_reach("partial");
      StringBuilder o2; sx_assert(0 == d.save(0x55, "conf", &o2), "saved"); Conf e(0, &KD); sx_assert(0 == e.load(0x55, &o2), "keys that were not known then don't matter"); sx_assert(same(&e, K::C, k == K::C ? &v : &z) && same(&e, K::S, k == K::S ? &v : &z) && same(&e, K::A, &z), "they have their default"); sx_reach("newer"); }
    else { Conf d(0, &KD3); sx_assert(0 != d.load(0x55, &out), "another kind of configuration is refused"); sx_assert(same(&d, K::C, &z) && !d.wasLoaded(), "and changes nothing"); }
  }
  else {
    Conf d(0, &KD2); uint8_t b[24]; int n = 0;
    if (part == 2) { n = sx_choose(THOROUGH ? 6 : 4, "n"); sx_bytes(b, n, "raw"); }
    else { static const uint8_t h[] = { 0xA1, 0x66, 'M', 'y', 'C', 'o', 'n', 'f', 0xA1, 0x65, 'K', 'E', 'Y', '_', 'C' }; memcpy(b, h, 15); bool cs = sx_choose(2, "str"); if (cs) b[14] = 'S'; n = 15 + sx_choose(THOROUGH ? 6 : 4, "n"); sx_bytes(b + 15, n - 15, "val"); }
    StringBuilder in(b, n); int8_t r = d.deserialize(&in, TCode::CBOR); sx_reach("hostile"); if (part == 2) sx_assert(0 != r, "what is no configuration is refused");
    if (0 == r) sx_reach("decoded"); else sx_reach("undecoded");
    uint32_t u = 0; char* s = nullptr; sx_assert(d.allocated() && 0 == d.getConf(K::C, &u) && 0 == d.getConf(K::S, &s), "the keys remain, with their types");
    if (0 != r) sx_assert(u == 0 && s == nullptr, "a refused value is not stored");
    if (part == 3 && 0 == r && b[14] == 'C') { uint8_t x = b[15]; if (n == 16 && x < 24) sx_assert(u == x, "value stored"); if (n == 17 && x == 24) sx_assert(u == b[16], "value stored"); if (n == 18 && x == 25) sx_assert(u == (uint32_t) ((b[16] << 8) | b[17]), "value stored"); if (n >= 16) sx_assert((x >> 5) != 1, "negative values are refused"); }
  }
}
int sx_main() { sx_heap_bytes(); uint32_t heap0 = sx_heap_bytes(); body(); sx_assert(sx_heap_bytes() == heap0, "all memory returned"); return 0; }

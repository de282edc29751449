//@ reach: list keyed empty inflated vector
//@ bounds: every byte sequence of up to 4 bytes (5 thorough); maps of two entries with keys of up to 2 bytes and integer, text, byte string, boolean and floating values; every type code over every payload of up to 9 bytes; every vector
//@ outside: longer sequences; maps and arrays inside maps, which this decoder flattens into one list; embedded zero bytes in text
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "C3PValue/KeyValuePair.h"
template <typename T> static void vect(TCode tc, uint8_t tag) {
  uint8_t raw[40]; const int len = 3 * sizeof(T); int n = 0; bool keyed = sx_choose(2, "keyed"); if (keyed) { raw[n++] = 0xA1; raw[n++] = 0x61; raw[n++] = 'v'; }
  raw[n++] = 0xD9; raw[n++] = 0xE9; raw[n++] = (uint8_t) tc; if (sx_choose(2, "typed")) { raw[n++] = 0xD8; raw[n++] = tag; } if (len < 24) raw[n++] = 0x40 | len; else { raw[n++] = 0x58; raw[n++] = len; } int hd = n; sx_bytes(raw + n, len, "vec"); n += len;
  KeyValuePair* v = KeyValuePair::unserialize(raw, n, TCode::CBOR); Vector3<T> o;
  sx_assert(v && v->tcode() == tc && v->count() == 1 && 0 == v->get_as(tc, &o) && 0 == memcmp(&o.x, raw + hd, sizeof(T)) && 0 == memcmp(&o.y, raw + hd + sizeof(T), sizeof(T)) && 0 == memcmp(&o.z, raw + hd + 2 * sizeof(T), sizeof(T)), "vector");
  sx_assert(keyed == (nullptr != v->getKey()) && (!keyed || 0 == strcmp(v->getKey(), "v")), "key of a vector"); delete v; sx_reach("vector");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); uint8_t raw[40]; int n = 0;
  switch (sx_choose(4, "shape")) {
    case 0: { n = sx_choose(THOROUGH ? 6 : 5, "n"); sx_bytes(raw, n, "raw"); uint8_t* b = (uint8_t*) malloc(n ? n : 1); memcpy(b, raw, n); KeyValuePair* k = KeyValuePair::unserialize(b, n, TCode::CBOR); free(b); if (k) { sx_reach("list"); StringBuilder sb; for (int i = 0; i < k->count(); i++) { C3PValue* c = k->valueWithIdx(i); if (c->tcode() == TCode::STR || c->tcode() == TCode::BINARY) { c->get_as(TCode::STR_BUILDER, &sb); } } delete k; } else sx_reach("empty"); } break;
    case 1: {   // a map
      char key[2][4]; uint8_t kind[2]; uint8_t pl[2][8]; raw[n++] = 0xA2;
      for (int i = 0; i < 2; i++) {
        int l = sx_choose(3, "keylen"); memset(key[i], 0, 4); for (int j = 0; j < l; j++) { key[i][j] = sx_u8("key"); sx_assume(key[i][j]); } raw[n++] = 0x60 | l; memcpy(raw + n, key[i], l); n += l; memset(pl[i], 0, 8);
        switch (kind[i] = sx_choose(6, "kind")) { case 0: raw[n++] = 0x1A; sx_bytes(pl[i], 4, "int"); memcpy(raw + n, pl[i], 4); n += 4; break; case 1: raw[n++] = 0x62; for (int j = 0; j < 2; j++) { pl[i][j] = sx_u8("chr"); sx_assume(pl[i][j]); raw[n++] = pl[i][j]; } break; case 2: raw[n++] = 0x42; sx_bytes(pl[i], 2, "bin"); memcpy(raw + n, pl[i], 2); n += 2; break; case 3: pl[i][0] = sx_choose(2, "bool"); raw[n++] = 0xF4 | pl[i][0]; break; case 4: raw[n++] = 0xFA; sx_bytes(pl[i], 4, "flt"); memcpy(raw + n, pl[i], 4); n += 4; break; default: raw[n++] = 0x39; sx_bytes(pl[i], 2, "neg"); memcpy(raw + n, pl[i], 2); n += 2; }
      }
      KeyValuePair* k = KeyValuePair::unserialize(raw, n, TCode::CBOR); sx_assert(k && k->count() == 2, "entries of a map"); KeyValuePair* e = k;
      for (int i = 0; i < 2; i++, e = e->nextKVP()) {
        sx_assert(e && e->getKey() && 0 == strcmp(e->getKey(), key[i]), "key of an entry");
        switch (kind[i]) { case 0: { uint32_t u = 0; sx_assert(0 == e->get_as(TCode::UINT32, &u) && u == (uint32_t) ref_be(pl[i], 4), "integer entry"); } break; case 1: { char* s = nullptr; sx_assert(0 == e->get_as(&s) && s && 0 == strcmp(s, (char*) pl[i]), "text entry"); } break; case 2: { uint8_t* b = nullptr; uint32_t l = 0; sx_assert(0 == e->get_as(&b, &l) && l == 2 && 0 == memcmp(b, pl[i], 2), "binary entry"); } break; case 3: { bool b = false; sx_assert(0 == e->get_as(&b) && b == (pl[i][0] != 0), "boolean entry"); } break; case 4: { uint32_t w = 0; sx_assert(e->tcode() == TCode::FLOAT && 0 == e->get_as((float*) (void*) &w) && w == ref_be(pl[i], 4), "floating entry"); } break; default: { int32_t v = 0; sx_assert(0 == e->get_as(TCode::INT32, &v) && v == -1 - (int32_t) ref_be(pl[i], 2), "negative entry"); } }
      }
      KeyValuePair* f = k->valueWithKey(key[1]); sx_assert(f == ((0 == strcmp(key[0], key[1])) ? k : k->nextKVP()), "lookup of a decoded entry"); delete k; sx_reach("keyed");
    } break;
    case 2: { raw[n++] = 0xD9; raw[n++] = 0xE9; uint8_t tc = sx_choose(256, "tcode"); raw[n++] = tc; int l = (tc == 0x50 || tc == (uint8_t) TCode::KVP) ? sx_choose(4, "len") : sx_choose(13, "len"); raw[n++] = 0x40 | l; sx_bytes(raw + n, l, "payload"); n += l; KeyValuePair* k = KeyValuePair::unserialize(raw, n, TCode::CBOR); if (k) { sx_reach("inflated"); delete k; } } break;
    default: switch (sx_choose(8, "elem")) { case 0: vect<uint8_t>(TCode::VECT_3_UINT8, 68); break; case 1: vect<uint16_t>(TCode::VECT_3_UINT16, 69); break; case 2: vect<uint32_t>(TCode::VECT_3_UINT32, 70); break; case 3: vect<int8_t>(TCode::VECT_3_INT8, 76); break; case 4: vect<int16_t>(TCode::VECT_3_INT16, 77); break; case 5: vect<int32_t>(TCode::VECT_3_INT32, 78); break; case 6: vect<float>(TCode::VECT_3_FLOAT, 85); break; default: vect<double>(TCode::VECT_3_DOUBLE, 86); }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: head wide neg64 float double bytes text array typed unsupported static full own value vector long
//@ bounds: every argument of every width for every head; payloads of up to 3 arbitrary bytes and text and byte strings of 22 to 25 and 254 to 257 bytes; output buffers of every capacity up to 10; every scalar, boolean, text (up to 3 bytes), byte string (up to 3 bytes) and vector value of every type, encoded, decoded again and compared
//@ outside: images (two byte strings, see DESIGN.md); nested values deeper than one pair; a platform of big-endian order; the heap running out
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "cbor-cpp/cbor.h"
#include "C3PValue/KeyValuePair.h"
#include "Identity/Identity.h"
#include "Identity/IdentityUUID.h"
static uint8_t want[320]; static int wl;
static void ref_put(uint8_t mj, uint64_t v) {
  mj <<= 5; int l = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v < 4294967296ULL ? 4 : 8;
  want[wl++] = l == 0 ? mj | (uint8_t) v : mj | (l == 1 ? 24 : l == 2 ? 25 : l == 4 ? 26 : 27); for (int i = l - 1; i >= 0; i--) want[wl++] = v >> (8 * i);
}
static void ref_int(int64_t v) { if (v < 0) ref_put(1, (uint64_t) (-1 - v)); else ref_put(0, v); }
static void ref_raw(const void* p, int n) { memcpy(want + wl, p, n); wl += n; }
static void rev(const void* p, int n) { for (int i = n - 1; i >= 0; i--) want[wl++] = ((const uint8_t*) p)[i]; }
static const char* typed(cbor::encoder& e, int t, const void* p, uint32_t n, int8_t* r) { switch (t) { case 0: *r = e.write_typed_array((const uint8_t*) p, n); return "\x44\1"; case 1: *r = e.write_typed_array((const uint16_t*) p, n); return "\x45\2"; case 2: *r = e.write_typed_array((const uint32_t*) p, n); return "\x46\4"; case 3: *r = e.write_typed_array((const uint64_t*) p, n); return "\x47\x8"; case 4: *r = e.write_typed_array((const int8_t*) p, n); return "\x4C\1"; case 5: *r = e.write_typed_array((const int16_t*) p, n); return "\x4D\2"; case 6: *r = e.write_typed_array((const int32_t*) p, n); return "\x4E\4"; case 7: *r = e.write_typed_array((const int64_t*) p, n); return "\x4F\x8"; case 8: *r = e.write_typed_array((const float*) p, n); return "\x55\4"; default: *r = e.write_typed_array((const double*) p, n); return "\x56\x8"; } }
/* Issues one write, and notes what RFC 8949 says it is. */
static void one(cbor::encoder& e) {
  uint8_t raw[24];
  switch (sx_choose(17, "what")) {
    case 0: { uint8_t v = sx_u8("v"); e.write_int(v); ref_put(0, v); sx_reach("head"); } break;
    case 1: { uint16_t v = sx_u16("v"); e.write_int(v); ref_put(0, v); } break;
    case 2: { uint32_t v = sx_u32("v"); e.write_int(v); ref_put(0, v); } break;
    case 3: { uint64_t v = sx_u64("v"); e.write_int(v); ref_put(0, v); sx_reach("wide"); } break;
    case 4: { int8_t v = (int8_t) sx_u8("v"); e.write_int(v); ref_int(v); } break;
    case 5: { int16_t v = (int16_t) sx_u16("v"); e.write_int(v); ref_int(v); } break;
    case 6: { int32_t v = (int32_t) sx_u32("v"); e.write_int(v); ref_int(v); } break;
    case 7: { int64_t v = (int64_t) sx_u64("v"); e.write_int(v); ref_int(v); sx_reach("neg64"); } break;
    case 8: { uint32_t v = sx_u32("v"); e.write_tag(v); ref_put(6, v); } break;
    case 9: { uint32_t v = sx_u32("v"); e.write_array(v); ref_put(4, v); sx_reach("array"); } break;
    case 10: { uint32_t v = sx_u32("v"); e.write_map(v); ref_put(5, v); } break;
    case 11: if (sx_choose(2, "b")) { bool b = sx_choose(2, "v"); e.write_bool(b); want[wl++] = b ? 0xF5 : 0xF4; } else { uint8_t v = sx_u8("v"); sx_assume(v < 24 || v >= 32); e.write_special(v); ref_put(7, v); } break;
    case 12: { float f; sx_bytes(&f, 4, "f"); e.write_float(f); want[wl++] = 0xFA; rev(&f, 4); sx_reach("float"); } break;
    case 13: { double f; sx_bytes(&f, 8, "f"); e.write_double(f); want[wl++] = 0xFB; rev(&f, 8); sx_reach("double"); } break;
    case 14: { int n = sx_choose(4, "n"); uint8_t* p = (uint8_t*) malloc(n ? n : 1); sx_bytes(p, n, "raw"); e.write_bytes(p, n); ref_put(2, n); ref_raw(p, n); free(p); sx_reach("bytes"); } break;
    case 15: { int n = sx_choose(4, "n"); char* p = (char*) malloc(n + 1); for (int i = 0; i < n; i++) p[i] = sx_u8("chr"); p[n] = 0; if (sx_choose(2, "sized")) { e.write_string(p, n); } else { int z = 0; while (z < n && p[z]) z++; n = z; e.write_string((const char*) p); } ref_put(3, n); ref_raw(p, n); free(p); sx_reach("text"); } break;
    default: { int t = sx_choose(10, "elem"); uint32_t n = sx_choose(3, "count"); sx_bytes(raw, 16, "elems"); int8_t r = 0; const char* d = typed(e, t, raw, n, &r); sx_assert(r == (n ? 0 : -2), "outcome of a typed array"); if (n) { want[wl++] = 0xD8; want[wl++] = d[0]; ref_put(2, n * d[1]); ref_raw(raw, n * d[1]); sx_reach("typed"); } else sx_reach("unsupported"); }
  }
}
static C3PValue* decode(StringBuilder* sb) { C3PValueDecoder d(sb); return d.next(); }
template <typename T> static void scalar(bool isflt) {
  T v; sx_bytes(&v, sizeof(T), "v"); if (isflt) { want[wl++] = sizeof(T) == 4 ? 0xFA : 0xFB; rev(&v, sizeof(T)); } else if ((T) -1 < (T) 1) ref_int((int64_t) v); else ref_put(0, (uint64_t) v);
  C3PValue a(v); StringBuilder o; sx_assert(0 == a.serialize(&o, TCode::CBOR), "a scalar packs"); sx_assert(o.length() == wl && 0 == memcmp(o.string(), want, wl), "a scalar packs to its CBOR form");
  C3PValue* b = decode(&o); T w; memset(&w, 0x5A, sizeof(T)); sx_assert(b && 0 == b->get_as(&w) && 0 == memcmp(&w, &v, sizeof(T)) && o.isEmpty(), "a scalar survives packing"); delete b; sx_reach("value");
}
template <typename T> static void vect(TCode tc, uint8_t tag) {
  Vector3<T> v; sx_bytes(&v.x, sizeof(T), "x"); sx_bytes(&v.y, sizeof(T), "y"); sx_bytes(&v.z, sizeof(T), "z"); want[wl++] = 0xD9; want[wl++] = 0xE9; want[wl++] = (uint8_t) tc; want[wl++] = 0xD8; want[wl++] = tag; ref_put(2, 3 * sizeof(T)); ref_raw(&v.x, sizeof(T)); ref_raw(&v.y, sizeof(T)); ref_raw(&v.z, sizeof(T));
  C3PValue a(&v); StringBuilder o; sx_assert(0 == a.serialize(&o, TCode::CBOR) && o.length() == wl && 0 == memcmp(o.string(), want, wl), "a vector packs to its CBOR form");
  Vector3<T> w; if (sx_choose(2, "how")) { C3PValue* b = decode(&o); sx_assert(b && b->tcode() == tc && 0 == b->get_as(&w), "a vector unpacks"); sx_assert(0 == memcmp(&w.x, &v.x, sizeof(T)) && 0 == memcmp(&w.y, &v.y, sizeof(T)) && 0 == memcmp(&w.z, &v.z, sizeof(T)), "a vector survives packing"); delete b; }
  else { KeyValuePair* b = KeyValuePair::unserialize(o.string(), o.length(), TCode::CBOR); sx_assert(b && b->tcode() == tc && 0 == b->get_as(tc, &w) && 0 == memcmp(&w.x, &v.x, sizeof(T)) && 0 == memcmp(&w.y, &v.y, sizeof(T)) && 0 == memcmp(&w.z, &v.z, sizeof(T)), "a vector survives packing in a list"); delete b; }
  sx_reach("vector");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); wl = 0;
  switch (sx_choose(5, "mode")) {
    case 0: { StringBuilder sb; cbor::output_stringbuilder o(&sb); cbor::encoder e(o); int pre = 0; if (sx_choose(2, "pre")) { e.write_bool(true); want[wl++] = 0xF5; } one(e); if (THOROUGH && sx_choose(2, "more")) one(e); (void) pre; sx_assert((int) o.size() == wl && (wl == 0 || 0 == memcmp(o.data(), want, wl)), "every write is its shortest RFC 8949 form"); } break;
    case 1: {   // fixed buffers
      uint32_t cap = sx_choose(11, "cap"); bool mine = sx_choose(2, "mine"); uint8_t* buf = mine ? (uint8_t*) malloc(cap ? cap : 1) : nullptr;
      { cbor::output_static o(cap, buf); sx_assert(o.size() == 0 && o.shouldFree() == (!mine && cap > 0) && (!mine || o.data() == buf), "a new output"); if (!mine) sx_reach("own");
        if (mine && sx_choose(2, "free")) { o.shouldFree(true); mine = false; }
        uint8_t model[10]; uint32_t n = 0;
        for (int i = 0; i < (THOROUGH ? 4 : 3); i++) { if (sx_choose(2, "one")) { uint8_t b = sx_u8("b"); int8_t r = o.put_byte(b); sx_assert((r == 0) == (n < cap), "a byte is taken if there is room"); if (n < cap) model[n++] = b; else sx_reach("full"); } else { uint8_t b[6]; int l = sx_choose(7, "l"); sx_bytes(b, l, "chunk"); int bad = sx_choose(2, "bad"); int8_t r = o.put_bytes(b, bad ? (int) (0x80000000u | sx_u32("neg")) : l); sx_assert((r == 0) == (!bad && n + l <= cap), "bytes are taken if they all fit"); if (!bad && n + l <= cap) { memcpy(model + n, b, l); n += l; } else sx_reach("full"); } sx_assert(o.size() == n && (n == 0 || 0 == memcmp(o.data(), model, n)), "content of a fixed output"); }
        sx_reach("static"); }
      if (mine) free(buf);
    } break;
    case 2: {   // long payloads
      int n = sx_choose(8, "n"); n = n < 4 ? 22 + n : 250 + n; char* p = (char*) malloc(n + 1); memset(p, 'x', n); p[n] = 0; p[n - 1] = sx_u8("last"); sx_assume(p[n - 1]); int how = sx_choose(4, "how"); StringBuilder sb; cbor::output_stringbuilder o(&sb); cbor::encoder e(o);
      if (how == 0) e.write_bytes((uint8_t*) p, n); else if (how == 1) e.write_string(p, n); else if (how == 2) e.write_string((const char*) p); else { C3PValue a((const char*) p); sx_assert(0 == a.serialize(&sb, TCode::CBOR), "text packs"); } ref_put(how == 0 ? 2 : 3, n); ref_raw(p, n); sx_assert(sb.length() == wl && 0 == memcmp(sb.string(), want, wl), "long payloads are whole");
      C3PValue* b = decode(&sb); if (how) { char* t = nullptr; sx_assert(b && 0 == b->get_as(&t) && 0 == strcmp(t, p), "long text survives packing"); } else { uint8_t* q = nullptr; uint32_t l = 0; sx_assert(b && 0 == b->get_as(&q, &l) && l == (uint32_t) n && 0 == memcmp(q, p, n), "long bytes survive packing"); } delete b; free(p); sx_reach("long");
    } break;
    case 3: switch (sx_choose(14, "scalar")) {
      case 0: scalar<uint8_t>(false); break; case 1: scalar<uint16_t>(false); break; case 2: scalar<uint32_t>(false); break; case 3: scalar<uint64_t>(false); break; case 4: scalar<int8_t>(false); break; case 5: scalar<int16_t>(false); break; case 6: scalar<int32_t>(false); break; case 7: scalar<int64_t>(false); break; case 8: scalar<float>(true); break; case 9: scalar<double>(true); break;
      case 10: { bool v = sx_choose(2, "v"); C3PValue a(v); StringBuilder o; sx_assert(0 == a.serialize(&o, TCode::CBOR) && o.length() == 1 && *o.string() == (v ? 0xF5 : 0xF4), "a boolean packs"); C3PValue* b = decode(&o); bool w = !v; sx_assert(b && 0 == b->get_as(&w) && w == v, "a boolean survives packing"); delete b; } break;
      case 11: { int n = sx_choose(4, "n"); char* p = (char*) malloc(n + 1); for (int i = 0; i < n; i++) { p[i] = sx_u8("chr"); sx_assume(p[i]); } p[n] = 0; StringBuilder o; ref_put(3, n); ref_raw(p, n); if (sx_choose(2, "builder")) { StringBuilder t; int c = sx_choose(n + 1, "cut"); if (c) t.concat((uint8_t*) p, c); if (n > c) t.concat((uint8_t*) p + c, n - c); C3PValue a(&t); sx_assert(0 == a.serialize(&o, TCode::CBOR), "a builder packs"); } else { C3PValue a((const char*) p); sx_assert(0 == a.serialize(&o, TCode::CBOR), "text packs"); } sx_assert(o.length() == wl && 0 == memcmp(o.string(), want, wl), "text packs to its CBOR form"); C3PValue* b = decode(&o); char* t = nullptr; sx_assert(b && 0 == b->get_as(&t) && 0 == strcmp(t, p), "text survives packing"); delete b; free(p); } break;
      case 12: { int n = sx_choose(4, "n"); uint8_t* p = (uint8_t*) malloc(n ? n : 1); sx_bytes(p, n, "bin"); C3PValue a(p, n); StringBuilder o; ref_put(2, n); ref_raw(p, n); sx_assert(0 == a.serialize(&o, TCode::CBOR) && o.length() == wl && 0 == memcmp(o.string(), want, wl), "bytes pack to their CBOR form"); C3PValue* b = decode(&o); uint8_t* q = nullptr; uint32_t l = 9; sx_assert(b && 0 == b->get_as(&q, &l) && l == (uint32_t) n && (n == 0 || 0 == memcmp(q, p, n)), "bytes survive packing"); delete b; free(p); } break;
      default: { KeyValuePair* in = new KeyValuePair("a", (uint32_t) sx_u32("in")); uint32_t v = 0; in->get_as(TCode::UINT32, &v); want[wl++] = 0xA1; want[wl++] = 0x61; want[wl++] = 'k'; want[wl++] = 0xA1; want[wl++] = 0x61; want[wl++] = 'a'; ref_put(0, v); KeyValuePair top("k", in); StringBuilder o; sx_assert(0 == ((C3PValue*) &top)->serialize(&o, TCode::CBOR) && o.length() == wl && 0 == memcmp(o.string(), want, wl), "a pair in a pair packs to a map in a map"); delete in; }
    } break;
    default: switch (sx_choose(8, "elem")) { case 0: vect<uint8_t>(TCode::VECT_3_UINT8, 68); break; case 1: vect<uint16_t>(TCode::VECT_3_UINT16, 69); break; case 2: vect<uint32_t>(TCode::VECT_3_UINT32, 70); break; case 3: vect<int8_t>(TCode::VECT_3_INT8, 76); break; case 4: vect<int16_t>(TCode::VECT_3_INT16, 77); break; case 5: vect<int32_t>(TCode::VECT_3_INT32, 78); break; case 6: vect<float>(TCode::VECT_3_FLOAT, 85); break; default: vect<double>(TCode::VECT_3_DOUBLE, 86); }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

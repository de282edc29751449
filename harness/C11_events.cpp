//@ reach: int neg bytes text array map tag simple bool null undef float double err extra truncated incremental consumed fragmented
//@ bounds: every byte sequence of up to 4 bytes (5 thorough), and every single item with its full 1, 2, 4 and 8 byte arguments and up to 3 bytes of payload; from a plain buffer, and from a builder split at every point, kept or consumed, complete or arriving in two portions
//@ outside: longer sequences; indefinite-length items, which the decoder rejects; lengths given with 8 bytes, which it reports as an error by design
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "cbor-cpp/cbor.h"
static Ev got[12], want[12]; static int ng, nw;
struct Rec : public cbor::listener {
  void put(uint8_t k, uint64_t v, uint8_t s = 0, const void* b = nullptr, int n = 0) { sx_assert(ng < 12, "number of items"); Ev* e = &got[ng++]; memset(e, 0, sizeof(*e)); e->kind = k; e->sign = s; e->v = v; if (n) memcpy(e->b, b, n); }
  void in(int64_t v) { if (v < 0) put('i', (uint64_t) (-1 - v), 1); else put('i', (uint64_t) v); }
  void on_integer(int8_t v) { in(v); } void on_integer(int16_t v) { in(v); } void on_integer(int32_t v) { in(v); } void on_integer(int64_t v) { in(v); }
  void on_integer(uint8_t v) { put('i', v); } void on_integer(uint16_t v) { put('i', v); } void on_integer(uint32_t v) { put('i', v); } void on_integer(uint64_t v) { put('i', v); }
  void on_float32(float f) { uint32_t v; memcpy(&v, &f, 4); put('f', v); } void on_double(double f) { uint64_t v; memcpy(&v, &f, 8); put('d', v); }
  void on_bytes(uint8_t* d, int n) { put('b', n, 0, d, n); } void on_string(char* s) { int n = strlen(s); put('t', n, 0, s, n); }
  void on_array(int n) { put('a', (uint32_t) n); } void on_map(int n) { put('m', (uint32_t) n); } void on_tag(unsigned int t) { put('g', t); } void on_special(unsigned int c) { put('s', c); }
  void on_bool(bool b) { put('o', b); } void on_null() { put('n', 0); } void on_undefined() { put('u', 0); } void on_error(const char*) { put('e', 0); }
  void on_extra_integer(uint64_t v, int s) { put('i', v, s < 0); sx_reach("extra"); } void on_extra_tag(uint64_t t) { put('g', t); } void on_extra_special(uint64_t t) { put('s', t); }
};
static void wput(uint8_t k, uint64_t v, uint8_t s = 0, const void* b = nullptr, int n = 0) { Ev* e = &want[nw++]; memset(e, 0, sizeof(*e)); e->kind = k; e->sign = s; e->v = v; if (n) memcpy(e->b, b, n); }
static void model(const uint8_t* p, int n) {
  while (n > 0) {
    uint8_t mj = 0, mn = 0; uint64_t a = 0; int h = ref_head(p, n, &mj, &mn, &a);
    if (h == 0) { sx_reach("truncated"); return; }
    if (h < 0) { wput('e', 0); sx_reach("err"); return; }
    if (mj >= 2 && mj <= 5 && h == 9) { wput('e', 0); return; }
    p += h; n -= h;
    switch (mj) {
      case 0: wput('i', a); sx_reach("int"); break; case 1: wput('i', a, 1); sx_reach("neg"); break;
      case 2: case 3: if (a > 0x7FFFFFFF) { wput('e', 0); return; } if (a > (uint64_t) n) { sx_reach("truncated"); return; }
        { int l = (int) sx_concretize((uint32_t) a), t = l; if (mj == 3) for (t = 0; t < l && p[t]; t++) {} wput(mj == 2 ? 'b' : 't', t, 0, p, t); p += l; n -= l; if (mj == 2) sx_reach("bytes"); else sx_reach("text"); } break;
      case 4: wput('a', a); sx_reach("array"); break; case 5: wput('m', a); sx_reach("map"); break; case 6: wput('g', a); sx_reach("tag"); break;
      default:
        if (h == 1) { if (mn == 20 || mn == 21) { wput('o', mn == 21); sx_reach("bool"); } else if (mn == 22) { wput('n', 0); sx_reach("null"); } else if (mn == 23) { wput('u', 0); sx_reach("undef"); } else { wput('s', a); sx_reach("simple"); } }
        else if (h <= 3) wput('s', a); else if (h == 5) { wput('f', a); sx_reach("float"); } else { wput('d', a); sx_reach("double"); }
    }
  }
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  uint8_t raw[16]; int n;
  uint32_t shape = sx_choose(5, "shape");
  if (shape == 0) { n = sx_choose(THOROUGH ? 6 : 5, "n"); sx_bytes(raw, n, "raw"); }
  else { int l = 1 << (shape - 1); uint8_t mj = sx_choose(8, "major"); raw[0] = (mj << 5) | (23 + shape); sx_bytes(raw + 1, l, "arg"); n = 1 + l; if (mj == 2 || mj == 3) { int x = sx_choose(4, "payload"); sx_bytes(raw + n, x, "pay"); sx_assume(x == 0 ||ref_be(raw + 1, l) >= (uint64_t) x); n += x; } }
  uint8_t* buf = (uint8_t*) malloc(n + 1); memcpy(buf, raw, n); uint8_t* exact = (uint8_t*) realloc(buf, n ? n : 1);
  ng = nw = 0; model(raw, n);
  { Rec rec; uint32_t how = sx_choose(n > 4 ? 3 : 4, "how"); uint32_t k = (how && n) ? sx_choose(n + 1, "split") : 0;
    if (how == 0) { cbor::input_static in(exact, n); cbor::decoder d(in, rec); d.run(); sx_assert(d.failed() == (nw && want[nw - 1].kind == 'e'), "failure reported"); }
    else {
      StringBuilder* sb = new StringBuilder(); if (k) sb->concat(exact, k);
      bool consume = how >= 2; cbor::input_stringbuilder* in = nullptr;
      if (how == 3) { in = new cbor::input_stringbuilder(sb, true, true); if (n > (int) k) sb->concat(exact + k, n - k); cbor::decoder d(*in, rec); d.run(); delete in; sx_reach("consumed"); }
      else { in = new cbor::input_stringbuilder(sb, consume, false); cbor::decoder d(*in); d.set_listener(rec); if (sx_choose(2, "late")) { d.run(); sx_reach("incremental"); } if (n > (int) k) sb->concat(exact + k, n - k); d.run(); delete in; if (!consume) sx_assert(sb->length() == n, "input left alone"); delete sb; if (k && (int) k < n) sx_reach("fragmented"); }
    }
  }
  sx_assert(ng == nw, "every complete item is delivered once, and nothing else");
  for (int i = 0; i < nw; i++) { sx_assert(got[i].kind == want[i].kind, "kind of item"); sx_assert(got[i].sign == want[i].sign && got[i].v == want[i].v, "value of item"); sx_assert(0 == memcmp(got[i].b, want[i].b, 16), "content of item"); }
  free(exact);
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: done portions
//@ bounds: and a stream of 30 items of every kind, with text and byte strings of 23 to 300 and 65536 bytes, from a builder in fragments of 1, 7, 256 bytes or whole, arriving at once or fragment by fragment
#include "sx.h"
#include "rt_common.h"
#include "cborref.h"
#include "StringBuilder.h"
#include "cbor-cpp/cbor.h"
struct It { uint8_t kind; uint8_t sign; uint64_t v; uint32_t h; };
static It got[64], want[64]; static int ng, nw; static uint8_t raw[70000]; static int n;
static uint32_t hash(const uint8_t* p, int l) { uint32_t h = 7; for (int i = 0; i < l; i++) h = h * 31 + p[i]; return h; }
static void add(It* a, int* k, uint8_t kind, uint64_t v, uint8_t s = 0, const uint8_t* p = nullptr, int l = 0) { sx_assert(*k < 60, "number of items"); It* e = &a[(*k)++]; e->kind = kind; e->sign = s; e->v = v; e->h = p ? hash(p, l) : 0; }
struct Rec : public cbor::listener {
  void put(uint8_t k, uint64_t v, uint8_t s = 0, const void* b = nullptr, int l = 0) { add(got, &ng, k, v, s, (const uint8_t*) b, l); }
  void in(int64_t v) { if (v < 0) put('i', (uint64_t) (-1 - v), 1); else put('i', (uint64_t) v); }
  void on_integer(int8_t v) { in(v); } void on_integer(int16_t v) { in(v); } void on_integer(int32_t v) { in(v); } void on_integer(int64_t v) { in(v); }
  void on_integer(uint8_t v) { put('i', v); } void on_integer(uint16_t v) { put('i', v); } void on_integer(uint32_t v) { put('i', v); } void on_integer(uint64_t v) { put('i', v); }
  void on_float32(float f) { uint32_t v; memcpy(&v, &f, 4); put('f', v); } void on_double(double f) { uint64_t v; memcpy(&v, &f, 8); put('d', v); }
  void on_bytes(uint8_t* d, int l) { put('b', l, 0, d, l); } void on_string(char* s) { int l = strlen(s); put('t', l, 0, s, l); }
  void on_array(int l) { put('a', (uint32_t) l); } void on_map(int l) { put('m', (uint32_t) l); } void on_tag(unsigned int t) { put('g', t); } void on_special(unsigned int c) { put('s', c); }
  void on_bool(bool b) { put('o', b); } void on_null() { put('n', 0); } void on_undefined() { put('u', 0); } void on_error(const char*) { put('e', 0); }
  void on_extra_integer(uint64_t v, int s) { put('i', v, s < 0); } void on_extra_tag(uint64_t t) { put('g', t); } void on_extra_special(uint64_t t) { put('s', t); }
};
static void head(uint8_t mj, uint64_t v, int l = -1) { if (l < 0) l = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v < 4294967296ULL ? 4 : 8; raw[n++] = mj << 5 | (l == 0 ? (uint8_t) v : l == 1 ? 24 : l == 2 ? 25 : l == 4 ? 26 : 27); for (int i = l - 1; i >= 0; i--) raw[n++] = v >> (8 * i); }
static void item(uint8_t mj, uint8_t kind, uint64_t v, int l = -1) { head(mj, v, l); add(want, &nw, kind, v, mj == 1); }
static void text(bool t, int l) { head(t ? 3 : 2, l); uint8_t* p = raw + n; for (int i = 0; i < l; i++) raw[n++] = 'a' + i % 26; add(want, &nw, t ? 't' : 'b', l, 0, p, l); }
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes(); n = ng = nw = 0;
  uint8_t a = sx_u8("a"); sx_assume(a >= 24); 
  const bool huge = sx_choose(5, "huge") == 0;
  item(0, 'i', 5); item(5, 'm', 3); text(true, 3); item(0, 'i', a, 1); text(true, 23); item(1, 'i', 70000); text(true, 24); item(4, 'a', 25); item(0, 'i', 1000); item(1, 'i', 200); item(0, 'i', 0x123456789AULL); item(1, 'i', 0xFFFFFFFFFULL);
  text(false, 255); text(true, 256); text(false, 300); text(true, 0); text(false, 0); item(6, 'g', 1000); item(6, 'g', 23); item(4, 'a', 300); item(5, 'm', 24); item(0, 'i', 0xFFFFFFFFu);
  raw[n++] = 0xF4; add(want, &nw, 'o', 0); raw[n++] = 0xF6; add(want, &nw, 'n', 0); raw[n++] = 0xFA; for (int i = 3; i >= 0; i--) raw[n++] = 0x40 + i; add(want, &nw, 'f', 0x43424140u); raw[n++] = 0xFB; for (int i = 7; i >= 0; i--) raw[n++] = 0x30 + i; add(want, &nw, 'd', 0x3736353433323130ULL);
  if (huge) { text(true, 65536); } item(0, 'i', 77);
  { Rec rec; static const int F[] = {1, 7, 256, 100000}; const int f = huge ? 2 + sx_choose(2, "frag") : sx_choose(4, "frag"); const int how = sx_choose(4, "how");
    if (how == 0) { cbor::input_static in(raw, n); cbor::decoder d(in, rec); d.run(); sx_assert(!d.failed(), "no failure"); }
    else {
      StringBuilder sb; const bool consume = how >= 2; 
      if (how == 3) { cbor::input_stringbuilder in(&sb, true, false); cbor::decoder d(in); d.set_listener(rec); for (int o = 0; o < n; o += F[f]) { sb.concat(raw + o, n - o < F[f] ? n - o : F[f]); d.run(); } sx_assert(!d.failed(), "no failure"); sx_reach("portions"); }
      else { for (int o = 0; o < n; o += F[f]) sb.concat(raw + o, n - o < F[f] ? n - o : F[f]); cbor::input_stringbuilder in(&sb, consume, false); cbor::decoder d(in); d.set_listener(rec); d.run(); sx_assert(!d.failed(), "no failure"); }
      if (!consume) sx_assert(sb.length() == n, "input left alone"); else sx_assert(sb.isEmpty(), "input consumed");
    }
  }
  sx_assert(ng == nw, "every item of a long stream is delivered once, and nothing else");
  for (int i = 0; i < nw; i++) { sx_assert(got[i].kind == want[i].kind, "kind of item"); sx_assert(got[i].sign == want[i].sign && got[i].v == want[i].v, "value of item"); sx_assert(got[i].h == want[i].h, "content of item"); }
  sx_reach("done");
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

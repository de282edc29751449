//@ reach: wrap saturated leap common bad date art prng drawn
//@ bounds: displacement, bounding, difference, flags: every operand of every width; reference counts: every starting count; dates: every valid date and time of 1970..2099 (year, month concrete per path, other digits symbolic); digests for art: one arbitrary byte, or two with some bits fixed, repeated up to 16 times
//@ outside: dates past 2099, malformed date text
#include "plat.h"
#include "FlagContainer.h"
template <class T> static void minmax() {
  T a, b, c; sx_bytes(&a, sizeof(T), "a"); sx_bytes(&b, sizeof(T), "b"); sx_bytes(&c, sizeof(T), "c");
  sx_assert(strict_max(a, b) == (a > b ? a : b), "maximum"); sx_assert(strict_min(a, b) == (a > b ? b : a), "minimum");
  T x = a, y = b; strict_swap(&x, &y); sx_assert(x == b && y == a, "swap");
  sx_assert(strict_abs_delta(a, b) == (T) (a > b ? a - b : b - a), "absolute difference");
  if (sx_branch(b <= c)) { T r = strict_range_bind(a, b, c); sx_assert(r == (a < b ? b : a > c ? c : a), "saturation"); if (sx_branch(a < b)) sx_reach("saturated"); }
}
template <class T> static void wrap() { T a, b; sx_bytes(&a, sizeof(T), "a"); sx_bytes(&b, sizeof(T), "b"); sx_assert(delta_assume_wrap(a, b) == (T) (a - b), "displacement on a wrapping counter"); if (sx_branch(a < b)) sx_reach("wrap"); }
template <class FT, class T> static void flags() {
  T r, f; sx_bytes(&r, sizeof(T), "r"); sx_bytes(&f, sizeof(T), "f"); FT c(r);
  sx_assert(c.value(f) == ((r & f) != 0), "any flag set"); sx_assert(c.all_set(f) == ((r & f) == f), "all flags set");
  switch (sx_choose(5, "op")) { case 0: c.set(f); sx_assert(c.raw == (T) (r | f), "set"); break; case 1: c.clear(f); sx_assert(c.raw == (T) (r & ~f), "clear"); break; case 2: c.flip(f); sx_assert(c.raw == (T) (r ^ f), "flip"); break;
    case 3: c.set(f, true); sx_assert(c.raw == (T) (r | f), "set to true"); break; case 4: c.set(f, false); sx_assert(c.raw == (T) (r & ~f), "set to false"); break; }
}
struct Fixed : public C3PRandom { uint8_t b[16]; int n = 0; int8_t fill(uint8_t* p, const uint32_t l) { for (uint32_t i = 0; i < l; i++) p[i] = b[n++]; return 0; } };
static void put(char* p, int v, int n) { for (int i = n - 1; i >= 0; i--) { p[i] = '0' + v % 10; v /= 10; } }
int sx_main() {
  switch (sx_choose(9, "what")) {
    case 0: switch (sx_choose(8, "t")) { case 0: minmax<uint8_t>(); break; case 1: minmax<int8_t>(); break; case 2: minmax<uint16_t>(); break; case 3: minmax<int16_t>(); break; case 4: minmax<uint32_t>(); break; case 5: minmax<int32_t>(); break; case 6: minmax<uint64_t>(); break; case 7: minmax<int64_t>(); break; } break;
    case 1: switch (sx_choose(4, "t")) { case 0: wrap<uint8_t>(); break; case 1: wrap<uint16_t>(); break; case 2: wrap<uint32_t>(); break; case 3: wrap<uint64_t>(); break; } break;
    case 2: switch (sx_choose(4, "t")) { case 0: flags<FlagContainer8, uint8_t>(); break; case 1: flags<FlagContainer16, uint16_t>(); break; case 2: flags<FlagContainer32, uint32_t>(); break; case 3: flags<FlagContainer64, uint64_t>(); break; } break;
    case 3: { uint16_t s = sx_u16("s"); sx_assume(s <= 64000); C3PRefCounter r(s); sx_assert(r.refCount() == s, "starting count"); uint32_t c = s;
      for (int i = 0; i < 3; i++) if (sx_choose(2, "op")) { bool ok = r.refTake(); sx_assert(ok == (c < 64000), "a reference is taken unless the count is at its maximum"); if (ok) c++; } else { bool z = r.refRelease(); if (c) c--; sx_assert(z == (c == 0), "release reports reaching zero"); }
      sx_assert(r.refCount() == c, "count of references, never below zero"); break; }
    case 4: { int y = 1970 + sx_choose(130, "y"), mo = 1 + sx_choose(12, "mo"); bool lp = (y % 4 == 0); static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      char t[24] = "0000-00-00T00:00:00Z"; put(t, y, 4); put(t + 5, mo, 2);
      static const int at[] = {8, 11, 14, 17}, mx[] = {0, 24, 60, 60}; int md = dm[mo - 1] + (mo == 2 && lp ? 1 : 0); uint32_t f[4];
      // one field at a time is symbolic in quick mode, all of them in thorough mode
      int sel = THOROUGH ? 4 : sx_choose(4, "field");
      for (int i = 0; i < 4; i++) { uint8_t hi = 0, lo = 1; if (sel == 4 || sel == i) { hi = sx_u8("hi"); lo = sx_u8("lo"); sx_assume((hi <= 5) & (lo <= 9)); } f[i] = hi * 10u + lo; if (sel == 4 || sel == i) { if (i == 0) sx_assume((f[0] >= 1) & (f[0] <= (uint32_t) md)); else sx_assume(f[i] < (uint32_t) mx[i]); } t[at[i]] = '0' + hi; t[at[i] + 1] = '0' + lo; }
      uint32_t d = f[0], h = f[1], mi = f[2], s = f[3];
      // independent count of the days: Julian day arithmetic
      int a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3; long jdn0 = (153 * mm + 2) / 5 + 365L * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
      uint64_t days = (uint64_t) (jdn0 - 2440588) + d; uint64_t e = days * 86400u + h * 3600u + mi * 60u + s;
      sx_assert(stringToTimestamp(t) == e, "a date and time maps to its epoch second"); sx_reach(lp ? "leap" : "common"); break; }
    case 5: { char t[24] = "2016-11-16T21:44:07Z"; uint8_t v = sx_u8("v"); sx_assume(v < 100); int w = sx_choose(5, "w"); static const int at[] = {5, 8, 11, 14, 17}; t[at[w]] = '0' + v / 10; t[at[w] + 1] = '0' + v % 10;
      bool bad = (w == 0) ? (v > 12 || v == 0) : (w == 1) ? v > 31 : (w == 2) ? v > 23 : v > 59;
      if (sx_branch(bad)) { sx_assert(stringToTimestamp(t) == 0, "a field out of range is refused"); sx_reach("bad"); } else if (w != 1 || v > 0) { sx_assert(stringToTimestamp(t) != 0, "a date in range is accepted"); sx_reach("date"); } break; }
    case 6: { uint32_t heap0 = sx_heap_bytes(); { uint8_t d[48]; int n = 1 + sx_choose(2, "n"), rep = 1 + sx_choose(4, "rep") * 5; int L = 0; uint8_t s[3]; sx_bytes(s, n, "s"); for (int i = 0; i < n; i++) s[i] = sx_concretize(s[i] & (n > 1 ? (THOROUGH ? 0x3f : 0x0f) : 0xff)); for (int i = 0; i < rep; i++) for (int j = 0; j < n && L < 48; j++) d[L++] = s[j];
      StringBuilder o; sx_assert(randomArt(d, L, "k", &o) == 0, "drawing a digest"); sx_assert(o.length() == 20 * 11, "the drawing has its full size"); uint8_t* p = o.string();
      for (int i = 0; i < 11; i++) { sx_assert(p[i * 20 + 19] == '\n', "every row is a line"); sx_assert(p[i * 20] == ((i == 0 || i == 10) ? '+' : '|') && p[i * 20 + 18] == ((i == 0 || i == 10) ? '+' : '|'), "every row is framed"); }
      sx_reach("art"); } sx_assert(sx_heap_bytes() == heap0, "all memory returned"); break; }
    case 8: { Fixed g; sx_bytes(g.b, 16, "noise"); switch (sx_choose(5, "width")) {
      case 0: sx_assert(g.randomUInt8() == g.b[0] && g.n == 1, "a random number is what was drawn"); break;
      case 1: sx_assert(g.randomUInt16() == (g.b[0] | g.b[1] << 8) && g.n == 2, "a random number is what was drawn"); break;
      case 2: sx_assert(g.randomUInt32() == (g.b[0] | g.b[1] << 8 | g.b[2] << 16 | (uint32_t) g.b[3] << 24) && g.n == 4, "a random number is what was drawn"); break;
      case 3: { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | g.b[i]; sx_assert(g.randomUInt64() == v && g.n == 8, "a random number is what was drawn"); } break;
      default: { bool x = g.randomBool(); sx_assert(g.n == 1 && x == ((g.b[0] & 1) != 0), "a random truth value is as likely as not"); } break; } sx_reach("drawn"); break; }
    case 7: { uint64_t seed = sx_u64("seed"); sx_assume(seed != 0); C3P_pRNG a, b; a.init(seed); b.init(seed); int n = sx_choose(10, "n"); uint8_t x[12], y[12]; memset(x, 0x5a, 12); memset(y, 0x5a, 12);
      sx_assert(a.fill(x, n) == 0, "filling"); b.fill(y, n); for (int i = 0; i < n; i++) sx_assert(x[i] == y[i], "equal seeds give equal streams"); for (int i = n; i < 12; i++) sx_assert(x[i] == 0x5a, "only the requested bytes are written"); sx_reach("prng"); break; }
  }
  return 0;
}

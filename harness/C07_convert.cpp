//@ reach: accepted refused risk0 risk
//@ bounds: all 121 ordered pairs of the scalar types (8 integer types, bool, float, double); every value of the source type and every prior value of the destination; reads, writes, container to container, and the convenience readers
//@ outside: conversions from floating point into integers beyond the fact that they are refused; 64-bit integers into floats beyond the rounding of the conversion itself
#include "sx.h"
#include "rt_common.h"
#include "C3PValue/C3PValue.h"
#include "StringBuilder.h"
static const TCode TC[11] = {TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE};
static const uint8_t SZ[11] = {1, 2, 4, 8, 1, 2, 4, 8, 1, 4, 8};
struct Num { uint64_t bits; int64_t s; bool neg; bool isf; double f; };   // value of a scalar: sign and 64-bit magnitude pattern, or floating
static void sym(int t, uint8_t* buf, const char* nm) { sx_bytes(buf, SZ[t], nm); if (t == 8) buf[0] &= 1; }
static Num load(int t, const uint8_t* b) {
  Num n; memset(&n, 0, sizeof(n)); 
  if (t == 9) { float f; memcpy(&f, b, 4); n.isf = true; n.f = (double) f; return n; }
  if (t == 10) { n.isf = true; memcpy(&n.f, b, 8); return n; }
  uint64_t v = 0; for (int i = 0; i < SZ[t]; i++) v |= (uint64_t) b[i] << (8 * i);
  if (t < 4 && SZ[t] < 8) { uint64_t m = (uint64_t) 1 << (8 * SZ[t] - 1); v = (v ^ m) - m; }
  n.bits = v; n.neg = t < 4 && (v >> 63); return n;
}
static uint8_t fits(int t, const Num& n) {   // can the integer n be held by integer type t
  uint64_t v = n.bits;
  switch (t) {
    case 0: return n.neg ? (int64_t) v >= -128 : v <= 127;
    case 1: return n.neg ? (int64_t) v >= -32768 : v <= 32767;
    case 2: return n.neg ? (int64_t) v >= -2147483648LL : v <= 2147483647;
    case 3: return n.neg || v <= 0x7FFFFFFFFFFFFFFFull;
    case 4: return !n.neg && v <= 255;
    case 5: return !n.neg && v <= 65535;
    case 6: return !n.neg && v <= 0xFFFFFFFFu;
    default: return !n.neg;
  }
}
// May and must the conversion s -> d succeed on this value?  0 no, 1 yes, 2 either
static int expect(int s, int d, const Num& n) {
  if (d == 8) return 1;                                   // anything scalar has a truth value
  if (s == 8) return 1;
  if (s >= 9) return d == s ? 1 : (s == 9 && d == 10) ? 1 : 2;   // floating sources
  if (d < 8) return fits(d, n) ? 1 : 0;
  return 2;                                               // integers into floating types
}
static bool same(int d, const uint8_t* got, int s, const Num& n) {
  if (d == 8) return got[0] == (n.isf ? (n.f != 0) : (n.bits != 0));
  if (d < 8) { if (n.isf) return false; Num g = load(d, got); return g.bits == n.bits; }
  if (d == 9) { float g; memcpy(&g, got, 4); float e = n.isf ? (float) n.f : n.neg ? (float) (int64_t) n.bits : (float) n.bits; uint32_t a, b; memcpy(&a, &g, 4); memcpy(&b, &e, 4); return a == b; }
  double g, e; memcpy(&g, got, 8); e = n.isf ? n.f : n.neg ? (double) (int64_t) n.bits : (double) n.bits; uint64_t a, b; memcpy(&a, &g, 8); memcpy(&b, &e, 8); return a == b;
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    int s = sx_choose(11, "s"), d = sx_choose(11, "d"); uint8_t* src = (uint8_t*) malloc(SZ[s]); sym(s, src, "src");
    Num n = load(s, src); if (s == 9 || s == 10) sx_assume(n.f == n.f);
    int e = expect(s, d, n); e = sx_branch(e == 1) ? 1 : sx_branch(e == 0) ? 0 : 2;
    int8_t risk = C3PType::conversionRisk(TC[s], TC[d]);
    sx_assert(C3PType::is_numeric(TC[s]) && C3PType::is_integral(TC[s]) == (s < 9) && C3PType::is_signed(TC[s]) == (s < 4 || s >= 9), "a type is told apart by sign and wholeness"); { static const TCode X[] = {TCode::STR, TCode::BINARY, TCode::VECT_3_FLOAT, TCode::KVP, TCode::NONE, TCode::STR_BUILDER, TCode::IDENTITY, TCode::IMAGE, TCode::INVALID, TCode::BOOLEAN}; const TCode x = X[d < 10 ? d : 9]; sx_assert(C3PType::is_numeric(x) == (d >= 9) && C3PType::is_integral(x) == (d >= 9) && !C3PType::is_signed(x), "a type is told apart by sign and wholeness"); }
    uint8_t* old = (uint8_t*) malloc(SZ[d]); sym(d, old, "old"); uint8_t* out = (uint8_t*) malloc(SZ[d]); memcpy(out, old, SZ[d]);
    C3PValue a(TC[s]); sx_assert(a.tcode() == TC[s] && !a.memError() && a.length() == SZ[s], "a container of a scalar type holds that type");
    uint16_t tr = a.trace(); sx_assert(0 == a.set_from(TC[s], src), "a value of the container's own type can always be stored"); sx_assert(a.trace() == (uint16_t) (tr + 1), "storing marks the container changed");
    int how = sx_choose(3, "how"); int8_t r;
    if (how == 0) {   // read out
      r = a.get_as(TC[d], out); sx_assert(r == 0 || 0 == memcmp(out, old, SZ[d]), "a refused read changes nothing");
    } else {          // write in
      C3PValue b(TC[d]); b.set_from(TC[d], old); uint16_t t0 = b.trace();
      r = how == 1 ? b.set_from(TC[s], src) : b.set(&a);
      sx_assert(b.trace() == (uint16_t) (t0 + (r == 0)), "only a change of value marks the container changed");
      sx_assert(0 == b.get_as(TC[d], out), "reading as the container's own type"); sx_assert(r == 0 || 0 == memcmp(out, old, SZ[d]), "a refused write changes nothing");
    }
    if (r == 0) { sx_assert(e != 0, "a value that cannot be represented is refused"); sx_assert(same(d, out, s, n), "a conversion that succeeds preserves the value"); sx_reach("accepted"); }
    else { sx_assert(e != 1, "a value that can be represented is converted"); sx_reach("refused"); }
    if (risk == 0 && (how == 0 || d == 8 || s < 9)) { sx_assert(r == 0, "a conversion declared free of risk always succeeds"); sx_reach("risk0"); } else sx_reach("risk");
    if (d == 0 && how == 0) {   // the convenience readers
      int8_t ok = 7; sx_assert(a.get_as_bool(&ok) == (n.isf ? n.f != 0 : n.bits != 0) && ok == 1, "truth of a scalar");
      ok = 7; uint32_t u = a.get_as_uint(&ok); if (s < 8) { sx_assert(ok == (fits(6, n) ? 1 : 0), "success of reading as unsigned"); sx_assert(u == (ok ? (uint32_t) n.bits : 0), "value read as unsigned"); }
      ok = 7; int32_t i = a.get_as_int(&ok); if (s < 8) { sx_assert(ok == (fits(2, n) ? 1 : 0), "success of reading as signed"); sx_assert(i == (ok ? (int32_t) n.bits : 0), "value read as signed"); }
      ok = 7; uint64_t U = a.get_as_uint64(&ok); if (s < 8) { sx_assert(ok == (fits(7, n) ? 1 : 0), "success of reading as unsigned 64"); sx_assert(U == (ok ? n.bits : 0), "value read as unsigned 64"); }
      ok = 7; int64_t I = a.get_as_int64(&ok); if (s < 8) { sx_assert(ok == (fits(3, n) ? 1 : 0), "success of reading as signed 64"); sx_assert(I == (ok ? (int64_t) n.bits : 0), "value read as signed 64"); }
      if (sx_choose(2, "real")) { ok = 7; float F = a.get_as_float(&ok), f = 0; int8_t q = a.get_as(TCode::FLOAT, &f); sx_assert(ok == (q == 0 ? 1 : 0), "success of reading as a float"); if (q) f = 0; sx_assert(0 == memcmp(&F, &f, 4), "value read as a float"); }
      else { ok = 7; double D = a.get_as_double(&ok), f = 0; int8_t q = a.get_as(TCode::DOUBLE, &f); sx_assert(ok == (q == 0 ? 1 : 0), "success of reading as a double"); if (q) f = 0; sx_assert(0 == memcmp(&D, &f, 8), "value read as a double"); }
    }
    free(src); free(old); free(out);
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

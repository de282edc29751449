//@ reach: found catchall missing invalid case
//@ bounds: lists of 1..4 definitions with arbitrary flags, contexts and values; lookups by every value, and by any text of up to 3 bytes against names of 1..2 letters
//@ outside: empty lists; duplicate values or names
#include "sx.h"
#include "rt_common.h"
#include "EnumWrapper.h"
static uint8_t up(uint8_t c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    int n = 1 + sx_choose(4, "n"); uint8_t fl[4], cx[4], vals[4] = {0, 9, 77, 255}; static const char* names[4] = {"a", "Bc", "b", "zz"};
    for (int i = 0; i < n; i++) { fl[i] = sx_choose(4, "fl"); cx[i] = sx_u8("cx"); }
    EnumDef<uint8_t> d[4] = {{vals[0], names[0], fl[0], cx[0]}, {vals[1], names[1], n > 1 ? fl[1] : (uint8_t) 0, n > 1 ? cx[1] : (uint8_t) 0}, {vals[2], names[2], n > 2 ? fl[2] : (uint8_t) 0, n > 2 ? cx[2] : (uint8_t) 0}, {vals[3], names[3], n > 3 ? fl[3] : (uint8_t) 0, n > 3 ? cx[3] : (uint8_t) 0}};
    EnumDefList<uint8_t> L(d, n, "L");
    if (sx_choose(2, "by")) {
      uint8_t v = sx_u8("v"); int k = -1; for (int i = 0; i < n; i++) if (sx_branch(v == vals[i])) k = i;
      sx_assert(L.enumValid(v) == (k >= 0 && !(fl[k] & ENUM_WRAPPER_FLAG_IS_INVALID)), "a value is valid exactly if it is listed and not marked invalid");
      sx_reach(k < 0 ? "missing" : (fl[k] & ENUM_WRAPPER_FLAG_IS_INVALID) ? "invalid" : "found");
      sx_assert(0 == strcmp(L.enumStr(v), k >= 0 ? names[k] : "<NO ENUM>"), "name of a value"); sx_assert(L.enumExtra(v) == (k >= 0 ? cx[k] : 0), "context of a value"); sx_assert(L.enumDef(v) == (k >= 0 ? d + k : nullptr), "definition of a value");
      uint32_t c = 0; StringBuilder sb; L.exportKeys(&sb); for (int i = 0; i < n; i++) if (!(fl[i] & ENUM_WRAPPER_FLAG_IS_INVALID)) { sx_assert(0 == strcmp(sb.position(c), names[i]), "exported names in order"); c++; }
      sx_assert(L.exportCount() == c && sb.count() == c, "exported count");
    } else {
      char t[4]; int tn = sx_choose(4, "tn"); for (int i = 0; i < tn; i++) { t[i] = sx_u8("t"); sx_assume(t[i] != 0); } t[tn] = 0;
      int k = -1, ca = -1; for (int i = n - 1; i >= 0; i--) { bool eq = strlen(names[i]) == (size_t) tn; for (int j = 0; j < tn && eq; j++) eq = sx_branch(up(t[j]) == up(names[i][j])); if (eq) { k = i; if (t[0] != names[i][0]) sx_reach("case"); } }
      for (int i = 0; i < n; i++) if (fl[i] & ENUM_WRAPPER_FLAG_CATCHALL) ca = i;
      int8_t f = 5; uint8_t r = L.getEnumByStr(t, &f);
      sx_assert(f == (k >= 0 ? 1 : 0), "a lookup by name reports whether it was found");
      sx_assert(r == (k >= 0 ? vals[k] : ca >= 0 ? vals[ca] : vals[n - 1]), "lookup by name, else the last catch-all, else the last value"); if (k < 0 && ca >= 0) sx_reach("catchall");
      sx_assert(L.getEnumDefByStr(t) == (k >= 0 ? d + k : ca >= 0 ? d + ca : nullptr), "definition by name, else the last catch-all");
      sx_assert(L.getEnumByStr(t) == r, "lookup without asking whether it was found");
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

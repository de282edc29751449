//@ reach: done
//@ bounds: and lists of 40 and 300 definitions of names of up to 30 letters that are prefixes of each other, of 8, 16 and 32 bit values
#include "sx.h"
#include "rt_common.h"
#include "EnumWrapper.h"
#include <new>
static char NM[300][34];
template <class T> static void run(int N) {
  EnumDef<T>* d = (EnumDef<T>*) malloc(N * sizeof(EnumDef<T>));
  for (int i = 0; i < N; i++) { int n = 0; NM[i][n++] = 'A' + i / 26; NM[i][n++] = 'a' + i % 26; for (int k = 0; k < i % 29; k++) NM[i][n++] = 'x'; NM[i][n] = 0; new (d + i) EnumDef<T>{(T) (i * (sizeof(T) == 1 ? 5 : 200) + 1), NM[i], (uint8_t) (i % 7 == 3 ? ENUM_WRAPPER_FLAG_IS_INVALID : 0), (uint8_t) i}; }
  {
    EnumDefList<T> L(d, N, "L"); static const int AT[] = {0, 1, 3, 28, 29, 39, 254, 255, 256, 299}; int at = AT[sx_choose(10, "at")]; if (at >= N) return;
    const T v = (T) (at * (sizeof(T) == 1 ? 5 : 200) + 1); sx_assert(0 == strcmp(L.enumStr(v), NM[at]) && L.enumDef(v) == d + at && L.enumExtra(v) == (uint8_t) at && L.enumValid(v) == (at % 7 != 3), "what a long list says about a value"); sx_assert(!L.enumValid((T) (v + 1)) && L.enumDef((T) (v + 1)) == nullptr, "what a long list does not have");
    int8_t f = 5; sx_assert(L.getEnumByStr(NM[at], &f) == v && f == 1 && L.getEnumDefByStr(NM[at]) == d + at, "lookup by name in a long list"); char o[36]; strcpy(o, NM[at]); for (char* p = o; *p; p++) *p ^= 0x20; sx_assert(L.getEnumByStr(o, &f) == v && f == 1, "lookup by name in another case"); strcat(o, "q"); L.getEnumByStr(o, &f); sx_assert(f == 0, "lookup of a name that is not in a long list"); o[strlen(NM[at]) - 1] = 0; if (at % 29 > 1) { L.getEnumByStr(o, &f); sx_assert(f == 0, "lookup of part of a name"); }
    StringBuilder sb; L.exportKeys(&sb); uint32_t c = 0; for (int i = 0; i < N; i++) if (i % 7 != 3) { if (i % 10 == 0) sx_assert(0 == strcmp(sb.position(c), NM[i]), "exported names in order"); c++; } sx_assert(L.exportCount() == c && sb.count() == c, "exported count");
  }
  free(d); sx_reach("done");
}
int sx_main() { sx_budget(400000000); switch (sx_choose(4, "type")) { case 0: run<uint8_t>(40); break; case 1: run<uint16_t>(300); break; case 2: run<uint32_t>(40); break; default: run<uint32_t>(300); } return 0; }

//@ reach: done
//@ bounds: and names that make a stored identity 253 to 259 bytes long
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Identity/Identity.h"
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  const int nl = 231 + sx_choose(7, "len"); char* nom = (char*) malloc(nl + 1); for (int i = 0; i < nl; i++) nom[i] = 'a' + i % 26; nom[nl - 1] = sx_u8("last"); sx_assume(nom[nl - 1]); nom[nl] = 0;
  IdentityUUID* a = new IdentityUUID(nom); const int L = 22 + nl; sx_assert(a->length() == L && 0 == strcmp(a->getHandle(), nom), "name and size"); uint8_t id[16]; a->copyRaw(id);
  uint8_t* b = (uint8_t*) malloc(L + 1); memset(b, 0xA5, L + 1); sx_assert(0 == a->serialize(b, L - 1), "too small a buffer is refused"); sx_assert(L == a->serialize(b, L + 1) && b[L] == 0xA5, "a long name is stored"); sx_assert(b[0] == L >> 8 && b[1] == (L & 0xFF) && 0 == memcmp(b + 5, nom, nl + 1) && 0 == memcmp(b + 6 + nl, id, 16), "stored form");
  Identity* c = Identity::fromBuffer(b, L + 1); sx_assert(c && c->length() == L && 0 == strcmp(c->getHandle(), nom), "a long name survives"); if (c) { uint8_t k[16]; ((IdentityUUID*) c)->copyRaw(k); sx_assert(0 == memcmp(k, id, 16), "the identifier survives"); delete c; }
  static const int CUT[] = {1, 2, 16, 17, 18, 230}; uint8_t* s = (uint8_t*) malloc(L); const int t = L - CUT[sx_choose(6, "cut")]; memcpy(s, b, t); s = (uint8_t*) realloc(s, t); sx_assert(nullptr == Identity::fromBuffer(s, t), "a truncated identity is refused"); free(s);
  delete a; free(b); free(nom); sx_reach("done");
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

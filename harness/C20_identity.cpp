//@ reach: stored loaded refused shortbuf named parsed hostile
//@ bounds: names of up to 3 bytes, every identifier, every size of destination from 0 to 40 bytes; every input to loading of up to 30 bytes, of any declared length, in a buffer of exactly that size
//@ outside: names of 65500 bytes and more; chains of several identities, which the library has no means to build; formats other than UUID, which loading refuses
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Identity/Identity.h"
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  uint32_t mode = sx_choose(3, "mode");   // 0: lookups, 1: storing, 2: loading anything
  if (mode < 2) {
    char nom[4] = {0, 0, 0, 0}; int nl = sx_choose(4, "namelen"); for (int i = 0; i < nl; i++) { nom[i] = sx_u8("name"); sx_assume(nom[i]); }
    char text[40]; uint8_t raw[16]; bool gen = mode == 1 ? true : sx_choose(2, "gen");
    IdentityUUID* a = nullptr;
    if (gen) a = new IdentityUUID(nom); else { memset(text, 0, 40); int o = 0; for (int i = 0; i < 16; i++) { raw[i] = i == 9 ? sx_u8("id") : i * 17; if (i == 4 || i == 6 || i == 8 || i == 10) text[o++] = '-'; for (int h = 1; h >= 0; h--) { uint8_t d = (raw[i] >> (4 * h)) & 15; text[o++] = d + (d < 10 ? '0' : 'a' - 10); } } a = new IdentityUUID(nom, text); sx_reach("parsed"); }
    char keep[4]; memcpy(keep, nom, 4); nom[0] = nl ? '!' : 0;
    uint8_t id[16]; a->copyRaw(id); if (!gen) sx_assert(0 == memcmp(id, raw, 16), "identifier from its text"); else { sx_assert((id[6] & 0xF0) == 0x40 && (id[8] & 0xC0) == 0x80, "a generated identity has a random UUID"); sx_assert(a->isValid() && a->isDirty(), "a generated identity is valid and not yet stored"); }
    sx_assert(0 == strcmp(a->getHandle(), keep) && a->length() == 22 + nl && a->identityType() == IdentFormat::UUID, "name, size and type");
    sx_assert(a->getIdentity(IdentFormat::UUID) == a && a->getIdentity(IdentFormat::PK) == nullptr, "by type");
    if (mode == 0) {
    char q[4] = {0, 0, 0, 0}; int ql = sx_choose(4, "ql"); for (int i = 0; i < ql; i++) { q[i] = sx_u8("q"); sx_assume(q[i]); } sx_assert((a->getIdentity(q) == a) == (0 == strcmp(q, keep)) && a->getIdentity((const char*) nullptr) == nullptr, "by name"); sx_reach("named"); }
    bool self = sx_choose(2, "self"); a->isSelf(self); sx_assert(a->isSelf() == self, "our own");
    uint32_t cap = mode == 0 ? a->length() : sx_choose(41, "cap"); uint8_t* b = (uint8_t*) malloc(cap ? cap : 1); memset(b, 0xA5, cap); int r = a->serialize(b, cap); sx_assert(r == ((int) cap >= a->length() ? a->length() : 0), "what storing reports");
    if (r) {
      sx_reach("stored"); sx_assert(b[0] == 0 && b[1] == 22 + nl && b[4] == 2 && 0 == memcmp(b + 5, keep, nl + 1) && 0 == memcmp(b + 6 + nl, id, 16) && (cap == (uint32_t) r || b[r] == 0xA5), "stored form");
      Identity* c = Identity::fromBuffer(b, cap); sx_assert(c && 0 == strcmp(c->getHandle(), keep) && c->length() == a->length() && c->identityType() == IdentFormat::UUID && c->isSelf() == self && !c->isDirty(), "loading gives what was stored"); uint8_t w[16]; ((IdentityUUID*) c)->copyRaw(w); sx_assert(0 == memcmp(w, id, 16), "identifier survives storing");
      StringBuilder o; c->toString(&o); StringBuilder p; a->toString(&p); sx_assert(o.length() == 36 && p.length() == 36 && 0 == memcmp(o.string(), p.string(), 36), "text of a loaded identity"); if (!gen) sx_assert(0 == memcmp(o.string(), text, 36), "text of an identity"); delete c; sx_reach("loaded");
      if (mode == 1 && cap == (uint32_t) r) for (uint32_t t = 0; t < (uint32_t) r; t++) { uint8_t* s = (uint8_t*) malloc(t ? t : 1); memcpy(s, b, t); sx_assert(nullptr == Identity::fromBuffer(s, t), "a truncated identity is refused"); free(s); }
    } else sx_reach("shortbuf");
    free(b); delete a;
  }
  else {
    int n = sx_choose(31, "n"); uint8_t* b = (uint8_t*) malloc(n ? n : 1); sx_bytes(b, n, "raw"); Identity* c = Identity::fromBuffer(b, n);
    if (c) { int z = 5; while (b[z]) z++; sx_assert(n >= 22 && b[4] == 2 && (b[0] << 8 | b[1]) <= n && z + 17 <= n && 0 == strcmp(c->getHandle(), (char*) b + 5) && c->length() == z + 17, "only a whole identity is loaded"); uint8_t w[16]; ((IdentityUUID*) c)->copyRaw(w); sx_assert(0 == memcmp(w, b + z + 1, 16), "loaded identifier"); delete c; sx_reach("hostile"); }
    else { int z = 5; while (z < n && b[z]) z++; sx_assert(!(n >= 22 && b[4] == 2 && (b[0] << 8 | b[1]) <= n && z + 17 <= n), "a whole identity is not refused"); sx_reach("refused"); }
    free(b);
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: done
//@ bounds: and lists of 300 pairs with keys of 3 to 5 and of 300 characters, packed and unpacked
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "C3PValue/KeyValuePair.h"
static void name(char* k, int i) { k[0] = 'k'; k[1] = 'a' + i % 16; k[2] = 'a' + i / 16; int n = 3 + i % 3; for (int j = 3; j < n; j++) k[j] = 'z'; k[n] = 0; }
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    const int N = 300; char k[304]; uint32_t v = sx_u32("v"); static const int AT[] = {0, 1, 23, 127, 128, 254, 255, 256, 299}; const int at = AT[sx_choose(9, "at")];
    KeyValuePair* top = nullptr;
    for (int i = 0; i < N; i++) { name(k, i); KeyValuePair* p = new KeyValuePair(k, (uint32_t) (i == at ? v : i * 3)); if (top) sx_assert(top->link(p, true) == p, "linking to a long list"); else top = p; }
    sx_assert(top->count() == N, "count of a long list");
    char q[8]; name(q, at); uint32_t x = 0; sx_assert(0 == top->valueWithKey(q, &x) && x == v, "lookup in a long list"); x = 0; sx_assert(0 == top->valueWithIdx(at, &x) && x == v, "lookup by position in a long list"); sx_assert(0 != top->valueWithKey("nokey", &x) && nullptr == top->valueWithIdx(N), "lookup of what a long list does not have");
    switch (sx_choose(4, "op")) {
      case 0: { C3PValue* h = top; C3PValue* g = top->valueWithIdx(at); sx_assert(0 == top->drop(&h, g, false), "dropping from a long list"); top = (KeyValuePair*) h; sx_assert(top->count() == N - 1 && nullptr == top->valueWithKey(q), "dropping from a long list"); sx_assert(g->count() == 1 && g->get_as_uint() == v, "what was dropped from a long list"); delete g; for (int i = 0; i < N; i += 11) if (i != at) { name(k, i); x = 0; sx_assert(0 == top->valueWithKey(k, &x) && x == (uint32_t) i * 3, "what is left of a long list"); } } break;
      case 1: { StringBuilder o; sx_assert(0 == top->serialize(&o, TCode::CBOR), "a long list packs"); sx_assert(o.byteAt(0) == 0xB9 && o.byteAt(1) == 1 && o.byteAt(2) == 44, "a long list packs to a map"); KeyValuePair* d = KeyValuePair::unserialize(o.string(), o.length(), TCode::CBOR); sx_assert(d != nullptr, "a long list unpacks"); if (!d) return 0; sx_assert(d->count() == N, "a long list unpacks"); C3PValue* p = d; for (int i = 0; i < N; i += 3) { name(k, i); p = d->valueWithIdx(i); x = 7; sx_assert(p && p->has_key() && 0 == strcmp(((KeyValuePair*) p)->getKey(), k) && 0 == p->get_as(TCode::UINT32, &x) && x == (i == at ? v : (uint32_t) i * 3), "a long list survives packing"); } delete d; } break;
      case 2: { char l[301]; for (int i = 0; i < 300; i++) l[i] = 'a' + i % 26; l[300] = 0; uint8_t m = sx_u8("m"); sx_assume(m); l[at < 300 ? at : 0] = m; char keep[301]; memcpy(keep, l, 301); top->append((uint16_t) 77, l); l[at] ^= 1; uint16_t y = 0; sx_assert(0 == top->valueWithKey(keep, &y) && y == 77, "a long key"); sx_assert(m == 1 || nullptr == top->valueWithKey(l), "a long key that differs in one place"); StringBuilder o; KeyValuePair one(keep, v); sx_assert(0 == one.serialize(&o, TCode::CBOR), "a long key packs"); KeyValuePair* d = KeyValuePair::unserialize(o.string(), o.length(), TCode::CBOR); sx_assert(d && 0 == strcmp(d->getKey(), keep) && 0 == d->get_as(TCode::UINT32, &x) && x == v, "a long key survives packing"); delete d; } break;
      case 3: { C3PValue* g = top->valueWithIdx(N - 1); sx_assert(0 == top->unlink(g, true) && top->count() == N - 1, "unlinking from a long list"); } break;
    }
    delete top; sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

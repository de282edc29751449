//@ reach: done altered
//@ bounds: and payloads of 255 to 257, 600 and 66000 bytes
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Storage/Storage.h"
static uint8_t pay[66001];
class R : public SimpleDataRecord {
  public:
    uint8_t* p; int n; bool got;
    R(uint8_t* b, int l) : SimpleDataRecord(0, StorageRecordType::C3POBJ_ON_ICE), p(b), n(l), got(false) {}
    int8_t serialize(StringBuilder* o, TCode f) { if (f != TCode::CBOR) return -1; o->concat(p, n / 2); o->concat(p + n / 2, n - n / 2); return 0; }
    int8_t deserialize(StringBuilder* i, TCode f) { if (f != TCode::CBOR) return -1; got = true; sx_assert(i->length() == n && 0 == memcmp(i->string(), p, n), "a long payload is what was saved"); return 0; }
};
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    static const int N[] = {255, 256, 257, 600, 66000}; const int n = N[sx_choose(5, "n")]; for (int i = 0; i < n; i++) pay[i] = (uint8_t) (i * 3 + (i >> 8)); pay[n - 1] = sx_concretize(sx_u8("last") & 0x11);
    R a(pay, n); StringBuilder out; sx_assert(0 == a.save(0x12345678, "long", &out), "a long record can be saved"); sx_assert(out.length() == 40 + n, "a descriptor and the payload are written"); uint8_t* s = out.string(); sx_assert((s[24] | s[25] << 8 | s[26] << 16) == n && 0 == memcmp(s + 40, pay, n), "length and payload are written");
    static const int AT[] = {0, 127, 254, 255, -1}; int at = AT[sx_choose(5, "at")]; if (at < 0 || at >= n) at = n - 1; const bool alter = sx_choose(2, "alter"); if (alter) { s[40 + at] ^= 1 << sx_choose(8, "bit"); sx_reach("altered"); }
    R b(pay, n); int8_t r; if (sx_choose(2, "how")) r = b.load(0x12345678, s, 40 + n); else { StringBuilder in; static const int F[] = {16, 100, 256, 70000}; const int f = F[sx_choose(n > 1000 ? 2 : 4, "frag") + (n > 1000 ? 2 : 0)]; for (int o = 0; o < 40 + n; o += f) in.concat(s + o, 40 + n - o < f ? 40 + n - o : f); r = b.load(0x12345678, &in); }
    sx_assert((r == 0) == !alter && b.got == !alter, "a long record is loaded if it is intact"); 
    R c(pay, n); if (!alter) sx_assert(0 != c.load(0x12345678, s, 39 + n) && !c.got, "a truncated long record is refused");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

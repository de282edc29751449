//@ reach: done
//@ bounds: and text and byte strings of 65534 to 65537 bytes, typed arrays of 5 to 300 elements
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "cbor-cpp/cbor.h"
#include "C3PValue/KeyValuePair.h"
template <typename T, uint8_t TAG> static void typed(int n) {
  T* a = (T*) malloc(n * sizeof(T)); for (int i = 0; i < n; i++) a[i] = (T) (i * 7 + 1); uint8_t m = sx_u8("m"); memcpy(a + n - 1, &m, 1); StringBuilder sb; cbor::output_stringbuilder o(&sb); cbor::encoder e(o);
  sx_assert(0 == e.write_typed_array(a, n), "a long typed array packs"); const int bytes = n * sizeof(T); const int h = bytes < 24 ? 1 : bytes < 256 ? 2 : 3; uint8_t* s = sb.string();
  sx_assert(sb.length() == 2 + h + bytes && s[0] == 0xD8 && s[1] == TAG, "a long typed array is whole"); sx_assert(h == 1 ? s[2] == 0x40 + bytes : h == 2 ? (s[2] == 0x58 && s[3] == bytes) : (s[2] == 0x59 && s[3] == bytes >> 8 && s[4] == (uint8_t) bytes), "length of a typed array"); sx_assert(0 == memcmp(s + 2 + h, a, bytes), "content of a long typed array"); free(a);
}
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    static const int NS[] = {5, 6, 23, 24, 31, 32, 63, 64, 128, 300}; 
    if (sx_choose(2, "arrays")) { const int n = NS[sx_choose(10, "n")]; switch (sx_choose(10, "type")) { case 0: typed<uint8_t, 68>(n); break; case 1: typed<uint16_t, 69>(n); break; case 2: typed<uint32_t, 70>(n); break; case 3: typed<uint64_t, 71>(n); break; case 4: typed<int8_t, 76>(n); break; case 5: typed<int16_t, 77>(n); break; case 6: typed<int32_t, 78>(n); break; case 7: typed<int64_t, 79>(n); break; case 8: typed<float, 85>(n); break; default: typed<double, 86>(n); } }
    else {
      const int n = 65534 + sx_choose(4, "n"); char* p = (char*) malloc(n + 1); memset(p, 'x', n); p[n] = 0; p[n - 1] = sx_u8("last"); p[255] = sx_u8("mid"); sx_assume(p[n - 1] && p[255]); const bool text = sx_choose(2, "text"); const int h = n < 65536 ? 3 : 5; StringBuilder o;
      if (text) { C3PValue a((const char*) p); sx_assert(0 == a.serialize(&o, TCode::CBOR), "long text packs"); } else { C3PValue a((uint8_t*) p, n); sx_assert(0 == a.serialize(&o, TCode::CBOR), "long bytes pack"); }
      uint8_t* s = o.string(); sx_assert(o.length() == n + h && s[0] == (text ? 0x60 : 0x40) + (h == 3 ? 25 : 26) && 0 == memcmp(s + h, p, n), "long content is whole"); if (h == 3) sx_assert(s[1] == n >> 8 && s[2] == (n & 0xFF), "length of long content"); else sx_assert(s[1] == 0 && s[2] == 1 && s[3] == 0 && s[4] == (n & 0xFF), "length of long content");
      C3PValueDecoder d(&o); C3PValue* b = d.next(); sx_assert(b && o.isEmpty(), "long content unpacks"); if (!b) return 0;
      if (text) { char* t = nullptr; sx_assert(0 == b->get_as(&t) && 0 == strcmp(t, p), "long text survives packing"); } else { uint8_t* q = nullptr; uint32_t l = 0; sx_assert(0 == b->get_as(&q, &l) && l == (uint32_t) n && 0 == memcmp(q, p, n), "long bytes survive packing"); } delete b; free(p);
    }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

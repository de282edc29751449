//@ reach: done
//@ bounds: and contents of 57, 58, 59, 255, 256, 257 and 600 bytes, in fragments of 1, 10, 256 bytes or whole, with chunks of 0, 3, 48 and 255
#include "sx.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
static uint8_t sym(uint8_t v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'; }
static uint8_t raw[3001], enc[4100], tmp[4100];
static int ref_enc(const uint8_t* p, int n, uint8_t* o) { int k = 0; for (int i = 0; i < n; i += 3) { uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); o[k++] = sym(v >> 18); o[k++] = sym(v >> 12 & 63); o[k++] = i + 1 < n ? sym(v >> 6 & 63) : '='; o[k++] = i + 2 < n ? sym(v & 63) : '='; } return k; }
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    static const int N[] = {57, 58, 59, 255, 256, 257, 600}, F[] = {1, 10, 256, 5000}, C[] = {0, 3, 48, 255}; const int n = N[sx_choose(7, "n")], f = F[sx_choose(4, "frag")], c = C[sx_choose(4, "chunk")];
    for (int i = 0; i < n; i++) raw[i] = (uint8_t) (i * 37 + (i >> 8)); raw[n - 1] = sx_concretize(sx_u8("last") & 0x81); 
    StringBuilderSink s(4096); Base64Encoder e(&s); e.inputLength(c); StringBuilder src; for (int o = 0; o < n; o += f) src.concat(raw + o, n - o < f ? n - o : f);
    int k = 0, off = 0; while (off < n) { const int take = c == 0 ? n : c; if (take > n - off) { sx_assert(e.pushBuffer(&src) == -1, "what is short of a chunk waits"); break; } k += ref_enc(raw + off, take, enc + k); off += take; sx_assert(e.pushBuffer(&src) == (off == n ? 1 : 0) && src.length() == n - off, "a chunk of long content is taken"); }
    sx_assert(s.length() == k && k == s.copyToBuffer(tmp, 4100) && 0 == memcmp(tmp, enc, k), "long content is encoded per RFC 4648");
    if (c == 0 || off == n) { const int cc = c == 0 ? 0 : (c + 2) / 3 * 4; StringBuilderSink d(4096); Base64Decoder b(&d); b.inputLength(cc); StringBuilder in; for (int o = 0; o < k; o += f) in.concat(enc + o, k - o < f ? k - o : f); int g = 0; while (g < k) { g += cc ? cc : k; sx_assert(b.pushBuffer(&in) == (g == k ? 1 : 0), "a chunk of long text is taken"); } sx_assert(d.length() == n && n == d.copyToBuffer(tmp, 4100) && 0 == memcmp(tmp, raw, n), "long content survives"); }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

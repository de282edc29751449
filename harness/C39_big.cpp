//@ reach: done
//@ bounds: and 300 messages of 1 to 300 bytes, with a sink that takes 0, 1, 255, 256 bytes or all at a time
#include "plat.h"
#include "C3PLogger.h"
static uint8_t got[40000], exp_[40000]; static int gn, en;
struct Sink : public BufferAccepter { int greed = 0; int8_t pushBuffer(StringBuilder* b) { int L = b->length(), t = greed < L ? greed : L; b->copyToBuffer(got + gn, t); gn += t; b->cull(t); return t == 0 ? -1 : (t < L ? 0 : 1); } int32_t bufferAvailable() { return greed; } };
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes(); gn = en = 0;
  {
    Sink s; static const int G[] = {0, 1, 255, 256, 50000}; s.greed = G[sx_choose(5, "greed")]; C3PLogger lg(0, &s); lg.verbosity(6); const uint8_t mark = sx_u8("mark"); const bool tags = sx_choose(2, "tag"); (void) tags;
    for (int i = 0; i < 300; i++) { int l = (i % 50 == 49) ? 300 : 1 + i % 40; StringBuilder m; uint8_t b[300]; for (int j = 0; j < l; j++) b[j] = (uint8_t) (i + j); b[l - 1] = mark; m.concat(b, l / 2); m.concat(b + l / 2, l - l / 2); const uint8_t sv = i % 9; const bool pass = sv <= 6; sx_assert(lg.print(sv > 7 ? 7 : sv, "t", &m) == (pass ? 0 : -1), "a message is accepted exactly if its severity is within the verbosity"); if (pass) { memcpy(exp_ + en, b, l); en += l; exp_[en++] = '\n'; } }
    StringBuilder rest; lg.fetchLog(&rest); const int rl = rest.length(); sx_assert(gn + rl == en, "accepted log text is never lost or duplicated"); rest.copyToBuffer(got + gn, rl); for (int i = 0; i < en; i++) sx_assert(got[i] == exp_[i], "log text reaches the sink in order"); sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

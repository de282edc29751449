//@ reach: done
//@ bounds: and streams of 600 and 70000 bytes through a fork, a line codec and sinks that take them in portions
#include "sx.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/LineCoDec/LineCoDec.h"
static uint8_t raw[70001], a[70001], b[70001];
struct End : public BufferAccepter { uint8_t* to; int n = 0, avail = 0, greed = 0; End(uint8_t* t) : to(t) {} int32_t bufferAvailable() { return avail; }
  int8_t pushBuffer(StringBuilder* s) { int L = s->length(), t = L < avail ? L : avail; if (greed < t) t = greed; sx_assert(t == s->copyToBuffer(to + n, t), "copy"); n += t; s->cull(t); return t == 0 ? -1 : t < L ? 0 : 1; } };
int sx_main() {
  sx_budget(800000000); uint32_t heap0 = sx_heap_bytes();
  {
    const int n = sx_choose(2, "huge") ? 70000 : 600; const int step = n / 6; for (int i = 0; i < n; i++) raw[i] = (uint8_t) (i * 5 + (i >> 8)); raw[n / 2] = sx_u8("mid"); raw[n - 1] = sx_u8("last");
    End l(a), r(b); BufferAccepterFork f(&l); f.rightHand(&r); LineEndingCoDec c(&f); BufferAccepter* top = sx_choose(2, "codec") ? (BufferAccepter*) &c : &f; StringBuilder src; int sup = 0;
    const int lg = sx_choose(3, "left"), rg = sx_choose(3, "right"); int quiet = 0;
    while (sup < n || quiet < 8) {
      if (sup < n) { const int k = n - sup < step ? n - sup : step; src.concat(raw + sup, k); sup += k; } else quiet++;
      l.avail = r.avail = n; l.greed = lg == 0 ? n : lg == 1 ? step / 2 : 255; r.greed = rg == 0 ? n : rg == 1 ? step - 1 : 256; if (quiet > 3) l.greed = r.greed = n;
      const int before = src.length(); const int8_t rc = top->pushBuffer(&src); sx_assert(rc == (src.length() == before ? -1 : src.length() ? 0 : 1), "what is taken is reported"); const int base = l.n < r.n ? l.n : r.n; sx_assert(src.length() == sup - base, "what both hands have is taken from the source");
    }
    sx_assert(l.n == n && r.n == n && src.isEmpty(), "a long stream reaches both hands"); sx_assert(0 == memcmp(a, raw, n) && 0 == memcmp(b, raw, n), "a long stream is unaltered");
    StringBuilderSink s(n - 10); src.concat(raw, n / 3); src.concat(raw + n / 3, n - n / 3); sx_assert(s.pushBuffer(&src) == 0 && s.length() == n - 10 && src.length() == 10 && s.bufferAvailable() == 0, "a large sink takes what it has room for"); sx_assert(s.byteAt(n / 2) == raw[n / 2] && src.byteAt(9) == raw[n - 1] && s.byteAt(n - 11) == raw[n - 11], "a large sink holds the stream");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

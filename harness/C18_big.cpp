//@ reach: done
//@ bounds: and streams of 120 sentences, good and bad, in pieces of 1 to 4000 bytes
#include "plat.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int calls; static float bear[200]; static int8_t cb(LocationFrame* f) { LocationFrame l; l.copyFrame(f); if (calls < 200) bear[calls] = l.mag_bearing; calls++; return 0; }
static char out[12000]; static int on;
static void put(const char* s) { while (*s) out[on++] = *s++; }
static char hx(uint8_t n) { return (char) (n + '0' + ((n > 9) ? 7 : 0)); }
static void sum(const char* body, int spoil) { uint8_t x = spoil; put("$"); for (const char* s = body; *s; s++) x ^= (uint8_t) *s; put(body); out[on++] = '*'; out[on++] = hx(x >> 4); out[on++] = hx(x & 15); put("\r\n"); }
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    GPSWrapper g; g.setCallback(cb); g.init(); calls = 0; on = 0; int good = 0, bad = 0, vt = 0; const int every = 2 + sx_choose(3, "every"); static int deg[200];
    for (int i = 0; i < 120; i++) {
      char b[64]; memset(b, 0, 64);
      if (i % every == 0) { sum("GPGSV,4,4,13,39,31,170,27", i % 3 == 2); if (i % 3 == 2) bad++; else good++; }
      else { const char* t = "GPVTG,054.7,T,000.5,M,005.5,N,036.0,K"; memcpy(b, t, strlen(t)); int d = (i * 7) % 360; b[14] = '0' + d / 100; b[15] = '0' + d / 10 % 10; b[16] = '0' + d % 10; if (i % 11 == 10) { sum(b, 1 + i % 254); bad++; } else { sum(b, 0); good++; deg[vt++] = d; } }
      if (i % 13 == 12) put("\n");
    }
    for (int i = 0; i < 160; i++) out[on++] = 'x'; out[on++] = '\n'; bad++;
    static const int C[] = { 1, 37, 128, 500, 1024, 4000 }; const int c = C[sx_choose(6, "piece")];
    for (int i = 0; i < on; i += c) { StringBuilder s; int n = on - i < c ? on - i : c; s.concat((uint8_t*) out + i, n / 2); s.concat((uint8_t*) out + i + n / 2, n - n / 2); sx_assert(g.pushBuffer(&s) == 1 && s.isEmpty(), "a parser takes all it is given"); }
    sx_assert(g.sentencesParsed() == (uint32_t) good && g.sentencesRejected() == (uint32_t) bad, "each good sentence of a long stream is parsed, once, and each bad one rejected"); sx_assert(calls == vt, "the callback is told of each velocity of a long stream, and of nothing else");
    for (int i = 0; i < vt; i++) { double d = bear[i] - (deg[i] + 0.5); sx_assert((d < 0 ? -d : d) < 0.001, "the callback is given what each sentence said, in order"); } sx_assert(g.bufferAvailable() == 1024, "no line is left behind"); sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

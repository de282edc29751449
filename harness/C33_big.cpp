//@ reach: done
//@ bounds: and 40 commands whose names are prefixes of each other, with shortcuts, up to 30 arguments, lines of 300 characters in pieces of 1, 7, 255, 256 and more, and 300 lines of history
#include "plat.h"
#include "Console/C3PConsole.h"
struct Sink : public BufferAccepter { int n = 0; int8_t pushBuffer(StringBuilder* b) { n += b->length(); b->clear(); return 1; } int32_t bufferAvailable() { return 60000; } };
static int ran, argc, arglen, who; static char first[420], last[420];
static int take(int id, StringBuilder* a) { ran++; who = id; argc = a->count(); arglen = 0; first[0] = last[0] = 0; for (int i = 0; i < argc; i++) { arglen += strlen(a->position(i)); if (i == 0) strcpy(first, a->position(i)); strcpy(last, a->position(i)); } return 0; }
template <int I> static int cb(StringBuilder*, StringBuilder* a) { return take(I, a); }
typedef int (*CB)(StringBuilder*, StringBuilder*); static CB CBS[40]; template <int I> static void fill() { CBS[I] = cb<I>; if constexpr (I > 0) fill<I - 1>(); }
static char NM[40][12];
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes(); ran = 0; fill<39>();
  {
    Sink o; ParsingConsole c(400); c.setEfferant(&o); c.setRXTerminator(LineTerm::LF);
    for (int i = 0; i < 40; i++) { int n = 0; NM[i][n++] = 'a' + i / 8; for (int k = 0; k <= i % 8; k++) NM[i][n++] = 'm' + k; NM[i][n] = 0; if (i & 1) c.defineCommand(NM[i], 'A' + i / 2, "h", "p", 0, CBS[i]); else c.defineCommand(NM[i], "h", "p", (i % 8 == 6) ? 2 : 0, CBS[i]); }
    const int k = sx_choose(40, "command"); char L[400]; int n = 0; int argn = 0, argl = 0; bool ext = false; char want[420] = {0};
    switch (sx_choose(4, "line")) {
      case 0: for (char* p = NM[k]; *p; p++) L[n++] = *p; break;
      case 1: { for (char* p = NM[k]; *p; p++) L[n++] = (*p >= 'a' && *p <= 'z') ? *p - 32 : *p; static const int AN[] = {1, 2, 3, 30}; argn = AN[sx_choose(4, "args")]; for (int a = 0; a < argn; a++) { L[n++] = ' '; int w = 1 + a % 9; for (int j = 0; j < w; j++) { L[n] = 'A' + (a + j) % 26; want[j] = L[n++]; } want[w] = 0; argl += w; } } break;
      case 2: { if (!(k & 1)) return 0; L[n++] = 'A' + k / 2; argn = 1; L[n++] = ' '; static const int AL[] = {250, 252, 253, 254, 300, 390}; argl = AL[sx_choose(6, "argl")]; for (int j = 0; j < argl && j < 397; j++) L[n++] = '0' + j % 10; if (argl < 320) { memcpy(want, L + 2, argl); want[argl] = 0; } } break;
      case 3: { ext = true; for (char* p = NM[k]; *p; p++) L[n++] = *p; L[n++] = 'z'; } break;
    }
     uint8_t mark = 0; if (argn && argl < 300) { mark = sx_u8("mark"); sx_assume(mark > ' ' && mark < 127); L[n - 1] = mark; want[strlen(want) - 1] = mark; } L[n++] = '\n';
    static const int P[] = {1, 7, 255, 256, 400}; const int p = P[sx_choose(n > 200 ? 5 : 2, "piece")]; bool ok = !ext && !(k % 8 == 6 && argn < 2);
    for (int at = 0; at < n; at += p) { StringBuilder s; s.concat((uint8_t*) L + at, n - at < p ? n - at : p); c.pushBuffer(&s); sx_assert(s.isEmpty(), "the console takes all of its input"); if (at + p < n) sx_assert(ran == 0, "nothing runs before its line is complete"); }
    sx_assert(ran == (ok ? 1 : 0), "a line runs its command once"); if (ok) { sx_assert(who == k, "a line runs its own command"); sx_assert(argc == argn && arglen == argl, "a command gets its own arguments"); if (argn && argl < 320) sx_assert(0 == strcmp(last, want), "a command gets its own arguments"); }
    if (k == 5) { c.clearHistory(); c.maxHistoryDepth(200); for (int i = 0; i < 300; i++) { StringBuilder s; s.concatf("%s %d\n", NM[1], i); c.pushBuffer(&s); sx_assert(atoi(first) == i, "lines run in order"); } sx_assert(c.historyDepth() == 200, "the history holds as many of the last lines as its depth"); StringBuilder h; c.printHistory(&h); StringBuilder e("199:  "); e.concatf("%s %d\n", NM[1], 299); sx_assert(h.contains((char*) e.string()), "the history lists the last lines"); StringBuilder g("\t0:  "); g.concatf("%s %d\n", NM[1], 100); sx_assert(h.contains((char*) g.string()), "the history lists the last lines"); }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: fork both drift caught one none sink sinkfull sinkpart codec held null
//@ bounds: forks with two, one or no hands; 3 (thorough 4) pushes of a stream of up to 9 arbitrary bytes, each hand announcing 0, 2 or 9 bytes (a single hand any number, the first time) and taking nothing, one byte or all of that at each push; sinks of every capacity, given 2 pushes of up to two fragments of up to 2 bytes; the line codec without replacement and of any terminator before an end that announces any number of bytes
//@ outside: replacement and line breaking of the line codec (not implemented); forks whose hands are exchanged while one of them is ahead; content changed by the caller between pushes
#include "taker.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/LineCoDec/LineCoDec.h"
static void eq(const uint8_t* a, const uint8_t* b, int n, const char* l) { for (int i = 0; i < n; i++) sx_assert(a[i] == b[i], l); }
static void forks() {
  uint8_t st[16]; sx_bytes(st, 12, "stream"); int sup = 0; Taker l, r; l.honest = r.honest = false;
  int cfg = sx_choose(4, "hands"); BufferAccepterFork f(cfg & 1 ? &l : nullptr); if (cfg & 2) f.rightHand(&r);
  sx_assert(f.leftHand() == (cfg & 1 ? &l : nullptr) && f.rightHand() == (cfg & 2 ? &r : nullptr), "hands are as given");
  if (!cfg) sx_reach("none"); else if (cfg < 3) sx_reach("one");
  StringBuilder src; static const int A[] = {0, 2, 9};
  for (int p = 0; p < (THOROUGH ? 4 : 3); p++) {
    int add = p == 0 ? 4 : p == 1 ? sx_choose(2, "more") * 3 : 2; if (add) { src.concat(st + sup, add - add / 2); if (add / 2) src.concat(st + sup + add - add / 2, add / 2); sup += add; }
    if (cfg & 1) l.avail = p == 0 && cfg != 3 ? sx_u32("left") & 0x7FFFFFFF : A[sx_choose(3, "left")]; if (cfg & 2) r.avail = p == 0 && cfg != 3 ? sx_u32("right") & 0x7FFFFFFF : A[sx_choose(3, "right")];
    int want = cfg == 0 ? 0 : cfg == 1 ? l.avail : cfg == 2 ? r.avail : (l.avail < r.avail ? l.avail : r.avail);
    sx_assert(f.bufferAvailable() == want, "a fork takes what its most laden hand takes");
    int before = src.length(), l0 = l.n, r0 = r.n, lp = l.pushes, rp = r.pushes; bool level = cfg != 3 || l.n == r.n;
    int8_t rc = f.pushBuffer(&src);
    sx_assert(rc == rc_of(before, src.length()), "a fork reports nothing, part or all taken as it is");
    sx_assert(l.n <= sup && r.n <= sup, "a hand gets nothing that was not pushed"); eq(l.got, st, l.n, "each hand gets the stream in order"); eq(r.got, st, r.n, "each hand gets the stream in order");
    sx_assert(l.n - l0 <= (cfg & 1 ? l.avail : 0) && r.n - r0 <= (cfg & 2 ? r.avail : 0), "a hand is not overfilled");
    int base = cfg == 0 ? 0 : cfg == 1 ? l.n : cfg == 2 ? r.n : (l.n < r.n ? l.n : r.n);
    sx_assert(src.length() == sup - base, "what both hands have is taken from the source, and nothing else"); for (int i = base; i < sup; i++) sx_assert(src.byteAt(i - base) == st[i], "the rest stays with the source, unchanged");
    if (level && want > 0 && before > 0) { if (cfg & 1) sx_assert(l.pushes == lp + 1, "a level hand is offered the buffer"); if (cfg & 2) sx_assert(r.pushes == rp + 1, "a level hand is offered the buffer"); }
    if (cfg == 3) { sx_reach("both"); if (!level && l.n == r.n && l.n > l0 + r.n - r0) sx_reach("caught"); if (l.n != r.n) sx_reach("drift"); }
    else if (want > 0 && before > 0) sx_reach("fork");
  }
  if (cfg == 3 && l.n == r.n) sx_reach("caught");
  sx_assert(f.pushBuffer(nullptr) == -1, "no buffer is refused"); sx_reach("null");
}
static void sinks() {
  int cap = (int) sx_u32("cap"); StringBuilderSink s(cap); uint8_t st[16]; int sup = 0; sx_bytes(st, 8, "stream"); StringBuilder src; int held = 0; if (sx_branch(cap < 0)) cap = 0;
  for (int p = 0; p < 2; p++) {
    int nf = sx_choose(3, "frags"); for (int i = 0; i < nf; i++) { int k = 1 + sx_choose(2, "len"); src.concat(st + sup, k); sup += k; }
    sx_assert(s.bufferAvailable() == cap - held, "a sink has room for what it does not hold"); int before = src.length(), take = sx_branch(before < cap - held) ? before : (int) sx_concretize(cap - held);
    int8_t rc = s.pushBuffer(&src); held += take;
    sx_assert(rc == rc_of(before, before - take), "a sink reports nothing, part or all taken as it is"); if (take == before && take) sx_reach("sink"); else if (take) sx_reach("sinkpart"); else if (before) sx_reach("sinkfull");
    sx_assert(s.length() == held && src.length() == sup - held, "a sink takes what it has room for, and no more");
    for (int i = 0; i < sup; i++) sx_assert((i < held ? s.byteAt(i) : src.byteAt(i - held)) == st[i], "a sink and its source hold the stream in order");
    if (sx_choose(2, "drain") && held) { int d = 1 + sx_choose(held, "n"); s.cull(d); held -= d; for (int i = d; i < sup; i++) st[i - d] = st[i]; sup -= d; }
  }
  sx_assert(s.pushBuffer(nullptr) == -1, "no buffer is refused");
}
static void codec() {
  Taker t; t.honest = false; bool have = sx_choose(4, "end"); uint8_t term = sx_choose(6, "term"); LineEndingCoDec c(nullptr, (LineTerm) term); if (have) c.setEfferant(&t); sx_assert((uint8_t) c.getTerminator() == term, "terminator is kept");
  sx_assert(!c.holdUntilBreak() && !c.isometriCallAndBreak(), "a codec starts transparent"); for (int i = 0; i < 5; i++) sx_assert(!c.replaceOccurrencesOf((LineTerm) i), "a codec starts transparent");
  uint8_t st[8]; sx_bytes(st, 8, "stream"); int sup = 0; StringBuilder src;
  bool hold = sx_choose(4, "hold") == 0; if (hold) { sx_reach("held"); if (sx_choose(2, "iso")) c.isometricCallAndBreak(true); else c.holdUntilBreak(true); sx_assert(c.holdUntilBreak(), "holding is kept"); c.holdUntilBreak(false); sx_assert(!c.holdUntilBreak() && !c.isometriCallAndBreak(), "holding is released"); }
  for (int p = 0; p < 2; p++) {
    int k = sx_choose(3, "len"); if (k) { src.concat(st + sup, 1); if (k > 1) src.concat(st + sup + 1, k - 1); sup += k; } t.avail = (int32_t) sx_u32("avail");
    sx_assert(c.bufferAvailable() == (have ? t.avail : 0), "a codec has the room of its end"); int before = src.length(), pu = t.pushes; int8_t rc = c.pushBuffer(&src);
    sx_assert(rc == rc_of(before, src.length()), "a codec reports nothing, part or all taken as it is"); sx_assert(t.n + src.length() == sup, "a codec loses nothing"); if (have && before && sx_branch(t.avail > 0)) sx_assert(t.pushes == pu + 1, "a codec passes on what it is given");
    for (int i = 0; i < sup; i++) sx_assert((i < t.n ? t.got[i] : src.byteAt(i - t.n)) == st[i], "a codec passes the stream in order"); sx_reach("codec");
  }
  sx_assert(c.pushBuffer(nullptr) == -1, "no buffer is refused");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(3, "part")) { case 0: forks(); break; case 1: sinks(); break; default: codec(); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

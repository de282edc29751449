//@ reach: tagged stored forwarded partial rejected backlog filtered fetched
//@ bounds: up to 3 (thorough 4) messages of 1..2 arbitrary bytes of any severity, with a sink that accepts any prefix (none, some, all) at each push, and no sink; any verbosity; severity text on and off; the heading of 3 messages with every choice of options, switched between them, tags of 0, 1, 5, 24 and 40 letters with one symbolic, and every time of 10 digits at most
//@ outside: sinks that break the buffer contract
#include "plat.h"
#include "C3PLogger.h"
struct Sink : public BufferAccepter {
  uint8_t got[128]; int n = 0; bool inorder = true;
  int8_t pushBuffer(StringBuilder* b) { int L = b->length(); sx_assert(L > 0, "nothing empty is pushed"); int k = sx_choose(3, "take"); int t = (k == 0) ? 0 : (k == 1) ? (L > 1 ? 1 : L) : L; 
    for (int i = 0; i < t; i++) got[n++] = b->byteAt(i); b->cull(t); if (t == 0) sx_reach("rejected"); else if (t < L) sx_reach("partial"); else sx_reach("forwarded"); return t == 0 ? -1 : (t < L ? 0 : 1); }
  int32_t bufferAvailable() { return 64; }
};
static void heading() {
  static const char* T[] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "}; static const int TL[] = {0, 1, 5, 24, 40}; plat_ms_direct = 1; int f = sx_choose(8, "options"); C3PLogger lg(f, nullptr); int wide = 1; static const uint32_t MS[] = {0, 7, 123456, 4294967295u}; 
  for (int i = 0; i < 3; i++) {
    if (i == 1) { int sw = sx_choose(4, "switch"); if (sw == 0) lg.printSeverity(!(f & 1)); if (sw == 1) lg.printTime(!(f & 2)); if (sw == 2) lg.printTag(!(f & 4)); if (sw < 3) f ^= 1 << sw; else { lg.printTag(f & 4); lg.printTime(f & 2); lg.printSeverity(f & 1); } }
    sx_assert(lg.printSeverity() == ((f & 1) != 0) && lg.printTime() == ((f & 2) != 0) && lg.printTag() == ((f & 4) != 0), "the options are as switched");
    int tl = (f & 4) ? TL[i == 2 ? 2 : sx_choose(5, "tag")] : 3; char tag[41]; for (int k = 0; k < tl; k++) tag[k] = 'a' + k % 26; tag[tl] = 0; if (tl) { tag[tl / 2] = sx_u8("letter"); sx_assume(tag[tl / 2] != 0); } plat_ms = MS[(f & 2) ? (i + f) % 4 : 0]; int sv = (i * 3 + f) % 8;
    StringBuilder m; uint8_t c = sx_u8("c"); m.concat(&c, 1); sx_assert(0 == lg.print(sv, tag, &m), "a message is accepted"); StringBuilder out, e; lg.fetchLog(&out); char ts[16]; if (f & 2) { sprintf(ts, "%10u ", (unsigned) plat_ms); e.concat(ts); } if (f & 1) e.concat(T[sv]); uint8_t x[80]; int n = e.length(); e.copyToBuffer(x, n);
    if (f & 4) { int shown = tl > 24 ? 24 : tl; if (shown > wide) wide = shown; for (int k = shown; k < wide; k++) x[n++] = ' '; for (int k = 0; k < shown; k++) x[n++] = tag[k]; x[n++] = ' '; } x[n++] = c; x[n++] = '\n';
    sx_assert(out.length() == n, "a line is headed by time, severity and tag as switched, aligned and no longer than agreed"); for (int k = 0; k < n; k++) sx_assert(out.byteAt(k) == x[k], "a line is headed by time, severity and tag as switched, aligned and no longer than agreed");
  }
  sx_reach("tagged");
}
int sx_main() {
  if (sx_choose(2, "part")) { uint32_t h = sx_heap_bytes(); heading(); sx_assert(sx_heap_bytes() == h, "all memory returned"); return 0; }
  uint32_t heap0 = sx_heap_bytes();
  {
    Sink s; bool sev = sx_choose(2, "sev"); bool sink = sx_choose(2, "sink"); C3PLogger lg(sev ? LOGGER_FLAG_PRINT_LEVEL : 0, sink ? &s : nullptr);
    uint8_t exp[256]; int en = 0; int n = 1 + sx_choose(THOROUGH ? 4 : 3, "n"); uint8_t verb = sx_u8("verb"); lg.verbosity(verb); sx_assert(lg.verbosity() == verb, "verbosity is kept");
    static const char* T[] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "};
    for (int i = 0; i < n; i++) {
      StringBuilder m; uint8_t t[2]; int l = 1 + sx_choose(2, "l"); sx_bytes(t, l, "t"); m.concat(t, l); uint8_t sv = sx_u8("sv"); sx_assume(sv < 8); if (sev) sv = sx_concretize(sv);
      bool pass = sx_branch(sv <= verb);
      int r = lg.print(sv, "tag", &m);
      sx_assert(r == (pass ? 0 : -1), "a message is accepted exactly if its severity is within the verbosity");
      if (pass) { if (sev) for (const char* p = T[sv]; *p; p++) exp[en++] = *p; for (int j = 0; j < l; j++) exp[en++] = t[j]; exp[en++] = '\n'; sx_assert(m.isEmpty(), "an accepted message is taken over"); }
      else { sx_reach("filtered"); sx_assert(m.length() == l, "a refused message is left with its owner"); }
    }
    // everything accepted is in the sink, or still held, in order and once
    StringBuilder rest; lg.fetchLog(&rest); int rl = rest.length(); if (rl) { sx_reach(sink ? "backlog" : "stored"); sx_reach("fetched"); }
    sx_assert(s.n + rl == en, "accepted log text is never lost or duplicated");
    for (int i = 0; i < en; i++) { uint8_t c = i < s.n ? s.got[i] : rest.byteAt(i - s.n); sx_assert(c == exp[i], "log text reaches the sink in order"); }
    StringBuilder again; lg.fetchLog(&again); sx_assert(again.isEmpty(), "fetching relinquishes the log");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: full part refused stall met violated honest caught
//@ bounds: the test source and sink of codecs: streams of up to 5 arbitrary bytes in up to 3 fragments, any push limit (negative too) of the source, any limit of the sink, 3 polls (thorough 4) with the limits changed between them; ends that claim what they did not take; any expected length and terminator
//@ outside: polling a source until stagnant whose end refuses for ever without breaking its contract (it does not end); counting of pushes the profiler was not started for
#include "plat.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/TestFixtures/CoDecTestFixtures.h"
static uint8_t st[8]; static int sup;
static void fill(StringBuilder* b) { sup = 0; int nf = sx_choose(4, "frags"); for (int i = 0; i < nf; i++) { int k = i == 1 ? 1 + sx_choose(2, "len") : i + 1 > 2 ? 1 : 1 + i; if (sup + k > 5) k = 5 - sup; if (k) { b->concat(st + sup, k); sup += k; } } }
static int lim(const char* l, int max) { int32_t v = (int32_t) sx_u32(l); if (sx_branch(v <= 0)) return v; if (sx_branch(v > max)) return v; return (int) sx_concretize(v); }
static void sink() {
  BufAcceptTestSink s; int taken = 0; uint32_t rej = 0, part = 0, full = 0, met = 0, bad = 0; sx_assert(s.bufferLimit() == 0 && s.bufferAvailable() == 0, "a sink starts without room");
  StringBuilder src; fill(&src);
  const int xl = sx_choose(4, "expected"); const int xt = sx_choose(6, "terminator"); if (xl) s.expectation((uint32_t) xl); static const LineTerm T[] = { LineTerm::ZEROBYTE, LineTerm::CR, LineTerm::LF, LineTerm::CRLF, LineTerm::CR, LineTerm::LF }; LineTerm lt = T[xt]; s.expectation(lt); sx_assert(s.expectedTerminator() == lt && s.expectedLength() == (uint32_t) xl, "expectations are kept");
  for (int p = 0; p < 2; p++) {
    const int32_t l = lim("room", 5); s.bufferLimit(l); sx_assert(s.bufferAvailable() == l, "a sink has the room it is given"); const int before = src.length(); plat_us += 7; s.profiler.markStart(); const int8_t rc = s.pushBuffer(&src);
    int take = 0; if (l > 0) take = l < before ? l : before;
    sx_assert(rc == (l <= 0 ? -1 : take == before ? 1 : 0), "a sink reports what it took"); if (rc < 0) { rej++; sx_reach("refused"); } else if (rc == 0) { part++; sx_reach("part"); } else { full++; sx_reach("full"); }
    taken += take; sx_assert(src.length() == before - take && s.take_log.length() == taken, "a sink takes what it has room for"); for (int i = 0; i < sup; i++) sx_assert((i < taken ? s.take_log.byteAt(i) : src.byteAt(i - taken)) == st[i], "the log and the source hold the stream in order");
    if (rc >= 0) { if (xl) { if (take == xl) met++; else bad++; } if (lt != LineTerm::ZEROBYTE) { bool m; uint8_t a = taken > 0 ? st[taken - 1] : 0, b = taken > 1 ? st[taken - 2] : 0; if (lt == LineTerm::CR) m = taken > 0 && a == '\r'; else if (lt == LineTerm::LF) m = taken > 0 && a == '\n'; else m = taken > 1 && sx_branch(a == '\n') && b == '\r'; if (sx_branch(m)) met++; else bad++; } }
    if (met) sx_reach("met"); if (bad) sx_reach("violated");
    sx_assert(s.expectationsMet() == met && s.expectationsViolated() == bad, "expectations are judged by what was taken"); sx_assert(s.countRejections() == rej && s.countPartialClaims() == part && s.countFullClaims() == full && s.callCount() == rej + part + full && s.callCountsBalance(), "each push is counted once");
  }
  sx_assert(s.pushBuffer(nullptr) == -1 && s.callCount() == 2, "no buffer is refused");
  s.reset(); sx_assert(s.callCount() == 0 && s.countRejections() + s.countPartialClaims() + s.countFullClaims() + s.expectationsMet() + s.expectationsViolated() == 0 && s.take_log.isEmpty() && s.bufferLimit() == 0 && s.expectedLength() == 0 && s.callCountsBalance(), "a reset sink is as new");
}
struct Liar : public BufferAccepter { int rc = 0, take = 0, saw = -1; int32_t bufferAvailable() { return 11; } int8_t pushBuffer(StringBuilder* b) { saw = b->length(); if (take) b->cull(take < saw ? take : saw); return rc; } };
static void source() {
  BufAcceptTestSink s; BufAcceptTestSource f(nullptr); StringBuilder src; fill(&src); sx_assert(f.poll() == -1 && f.pushBuffer(&src) == -1 && f.bufferAvailable() == 0 && src.length() == sup, "a source without an end refuses"); f.setEfferant(&s); f.setProfiler(&s.profiler); s.bufferLimit(3); sx_assert(f.bufferAvailable() == 3, "a source has the room of its end");
  sx_assert(f.pushBuffer(&src) == 1 && src.isEmpty() && f.backlogLength() == sup, "a source takes everything"); int sent = 0; uint32_t rej = 0, part = 0, full = 0;
  for (int p = 0; p < (THOROUGH ? 4 : 3); p++) {
    const int L = p == 0 ? lim("push", 5) : p == 1 ? 2 : sup; f.pushLimit(L); const int room = p == 0 ? sx_choose(4, "room") : p == 1 ? sx_choose(2, "room") * 2 : 1; s.bufferLimit(room); plat_us += 5; const int left = sup - sent; int off = L <= 0 ? 0 : L < left ? L : left; const int8_t rc = f.poll(); sx_assert(f.pushLimit() == L, "the limit is kept");
    sx_assert(rc == (off ? 1 : 0), "a source polls while it has something to send"); if (!off) sx_reach("stall");
    if (off) { if (room <= 0) rej++; else if (room < off) { part++; sent += room; } else { full++; sent += off; } }
    sx_assert(s.take_log.length() == sent && f.backlogLength() == sup - sent, "a source keeps what was not taken"); for (int i = 0; i < sent; i++) sx_assert(s.take_log.byteAt(i) == st[i], "a source sends its stream in order");
    sx_assert(f.countRejections() == rej && f.countPartialClaims() == part && f.countFullClaims() == full && f.callCount() == rej + part + full && f.callCountsBalance() && !f.efferantViolatesContract(), "a source counts the answers of its end");
    sx_assert(s.countRejections() == rej && s.countPartialClaims() == part && s.countFullClaims() == full && s.callCount() == rej + part + full, "both ends count alike");
  }
  s.bufferLimit(9); f.pushLimit(1); const int n = sup - sent; sx_assert(f.pollUntilStagnant() == n && f.backlogLength() == 0 && s.take_log.length() == sup, "a source polled to the end sends all"); for (int i = 0; i < sup; i++) sx_assert(s.take_log.byteAt(i) == st[i], "a source sends its stream in order"); sx_reach("honest");
  f.pushBuffer(&s.take_log); f.reset(); sx_assert(f.backlogLength() == 0 && f.callCount() == 0 && f.pushLimit() == 0 && f.countRejections() + f.countPartialClaims() + f.countFullClaims() == 0, "a reset source is as new");
}
static void liar() {
  Liar e; BufAcceptTestSource f(&e); StringBuilder src; src.concat(st, 3); src.concat(st + 3, 1); f.pushBuffer(&src); f.pushLimit(4); e.rc = (int8_t) sx_u8("rc"); e.take = sx_choose(5, "take"); sx_assert(f.bufferAvailable() == 11, "a source has the room of its end");
  sx_assert(f.poll() == 1 && e.saw == 4 && f.callCount() == 1, "a source offers what its limit allows"); sx_assert(f.backlogLength() == 4 - e.take, "a source keeps what was not taken");
  bool ok = false; if (sx_branch(e.rc == -1)) ok = e.take == 0; else if (sx_branch(e.rc == 0)) ok = e.take > 0; else if (sx_branch(e.rc == 1)) ok = e.take == 4;
  sx_assert(f.efferantViolatesContract() == !ok, "an answer that does not match what was taken is noticed, and only that"); if (!ok) sx_reach("caught");
  if (!ok) { sx_assert(f.pollUntilStagnant() <= 1, "polling stops at a breach"); }
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); plat_us = 1000; sx_bytes(st, 6, "stream");
  switch (sx_choose(3, "what")) { case 0: sink(); break; case 1: source(); break; default: liar(); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

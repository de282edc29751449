//@ reach: measured notstarted wrapped
//@ bounds: up to 3 (thorough 4) measurements with every duration below 2^29, and for single ones every start time of the 32-bit clock,, before and after a reset
//@ outside: totals beyond 2^32 microseconds; starting exactly at a clock reading of zero
#include "plat.h"
#include "TimerTools/TimerTools.h"
int sx_main() {
  StopWatch sw(0x1234);
  sx_assert(!sw.markStop(), "stopping a watch that was not started is refused"); sx_assert(sw.executions() == 0, "and is not counted"); sx_reach("notstarted");
  for (int round = 0; round < 2; round++) {
    int n = sx_choose(THOROUGH ? 5 : 4, "n"); uint32_t best = 0xffffffffu, worst = 0, last = 0; uint64_t total = 0;
    for (int i = 0; i < n; i++) {
      uint32_t s = n > 1 ? 1 : sx_u32("s"), d = sx_u32("d"); sx_assume(d < 0x20000000u); total += d;
      if (sx_choose(2, "ext")) sx_assert(sw.addRuntime((unsigned long) s, (unsigned long) (uint32_t) (s + d)), "adding an external measurement");
      else { sx_assume(s != 0); plat_us = s; sw.markStart(); plat_us += d; sx_assert(sw.markStop(), "stopping a started watch"); sx_assert(!sw.markStop(), "stopping twice is refused"); }
      if (sx_branch((uint32_t) (s + d) < s)) sx_reach("wrapped");
      last = d; if (d < best) best = d; if (d > worst) worst = d;
    }
    sx_assert(sw.executions() == (uint32_t) n, "measurements are counted"); sx_assert(sw.lastTime() == last, "last duration, across the wrap of the clock"); sx_assert(sw.worstTime() == worst, "longest duration");
    sx_assert(sw.bestTime() == best, "shortest duration"); sx_assert(sw.totalTime() == (uint32_t) total, "total duration"); sx_assert(sw.meanTime() == (n ? (uint32_t) total / n : 0), "mean duration"); sx_assert(sw.tag() == 0x1234, "tag");
    if (n) sx_reach("measured");
    if (round == 0) { if (sx_choose(2, "armed")) { plat_us = 77; sw.markStart(); } sw.reset(); sx_assert(!sw.markStop(), "a reset watch is not running"); }
  }
  return 0;
}

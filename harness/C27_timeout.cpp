//@ reach: expired pending wrapped disabled triggered raced
//@ bounds: every 32-bit period (below the counter range), every start time and elapsed time below 2^32 counts, counter wrap included, both clocks; a clock that advances by any amount between two readings
//@ outside: elapsed times beyond one wrap of the 32-bit counter
#include "plat.h"
#include "TimerTools/TimerTools.h"
int sx_main() {
  bool us = sx_choose(2, "clock"); MillisTimeout mt(0); MicrosTimeout ut(0);
  PeriodicTimeout* t = us ? (PeriodicTimeout*) &ut : (PeriodicTimeout*) &mt;
  plat_ms_direct = 1; uint64_t& clk = us ? plat_us : plat_ms;
  uint32_t start = sx_u32("start"), period = sx_u32("period"), el = sx_u32("elapsed");
  clk = start;
  switch (sx_choose(4, "mode")) {
    case 0: t->reset(period); sx_assert(t->period() == period, "period is kept"); sx_assert(t->enabled() == (period != 0), "a period of zero disables");
      clk += el; break;
    case 1: t->period(period); t->reset(); clk += el; break;
    case 2: { sx_assume(period < 0xffffffffu); t->period(period); t->reset(); clk += el; t->trigger(); sx_reach("triggered"); sx_assert(t->expired(), "a triggered timeout is expired at once"); sx_assert(t->remaining() == 0, "a triggered timeout has nothing remaining"); return 0; }
    case 3: { // the clock moves while remaining() runs
      uint32_t step = sx_u32("step") & 0xffff; t->reset(period); clk += el; sx_assume(el < 0xfff00000u); plat_us_step = step; uint32_t r = t->remaining(); plat_us_step = 0; sx_reach("raced");
      sx_assert(r <= (el >= period ? 0 : period - el), "the remainder never exceeds what was left when asked"); return 0; }
  }
  if (sx_branch((uint32_t) (start + el) < start)) sx_reach("wrapped");
  bool ex = (period == 0) | (el >= period);
  sx_assert(t->expired() == ex, "expiry comes exactly once the period has elapsed, across the wrap of the clock");
  sx_assert(t->remaining() == (ex ? 0 : period - el), "the remainder is the period less the elapsed time");
  sx_assert(t->expired() == ex, "asking does not change the state");
  if (sx_branch(ex)) sx_reach("expired"); else sx_reach("pending"); if (sx_branch(period == 0)) sx_reach("disabled");
  t->reset(); sx_assert(t->expired() == (period == 0), "a reset timeout starts over"); sx_assert(t->remaining() == period, "a reset timeout has its whole period left");
  if (us) { sx_assert(micros_since(start) == el, "elapsed time across the wrap"); sx_assert(micros_until(start + el + 5) == 5, "time until a mark across the wrap"); }
  return 0;
}

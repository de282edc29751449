//@ reach: done
//@ bounds: and 8 schedules of different periods and recurrences over 300 services at uneven times, from every start of the clock near its wrap or zero
#include "plat.h"
#include "rt_common.h"
#include "TimerTools/C3PScheduler.h"
static int order[4096], on;
struct Sch : public C3PSchedule { int id, runs = 0; Sch(int i, uint32_t p, int32_t r) : C3PSchedule("s", p, r, true), id(i) {} int8_t _execute() override { runs++; if (on < 4096) order[on] = id; on++; return 0; } void _print_schedule(StringBuilder*) override {} };
int sx_main() {
  sx_budget(200000000); plat_us_step = 0; static const uint32_t S[] = { 1000, 0xFFFFFFFFu - 20000, 0x7FFFFFFFu - 30000, 0xFFFF8000u }; plat_us = S[sx_choose(4, "start")] + sx_choose(3, "jog"); C3PScheduler* sc = C3PScheduler::getInstance(); sx_assert(sc->initialized(), "there is one scheduler"); uint32_t heap0 = sx_heap_bytes();
  static const uint32_t P[8] = { 100, 137, 1000, 64, 999, 5000, 20000, 300 }; static const int32_t R[8] = { -1, 200, 7, 1, -1, 3, -1, 70000 }; Sch* s[8]; uint32_t at[8]; int32_t rec[8]; bool en[8]; int runs[8]; on = 0; int en_n = 0; static int expect[4096];
  for (int i = 0; i < 8; i++) { s[i] = new Sch(i, P[i], R[i]); sx_assert(0 == sc->addSchedule(s[i]), "a schedule is added"); at[i] = (uint32_t) plat_us + P[i]; rec[i] = R[i]; en[i] = true; runs[i] = 0; }
  const int pat = sx_choose(3, "pattern");
  for (int k = 0; k < 300; k++) {
    uint32_t d = pat == 0 ? 50 : pat == 1 ? (uint32_t) (k * 37) % 400 : (k % 16 == 15 ? 3000 : 9); plat_us += d; sc->advanceScheduler(); if (k % 5 == 4) sc->advanceScheduler();
    for (int i = 0; i < 8; i++) if (en[i] && (uint32_t) plat_us - at[i] < 0x7FFFFFFFu) { expect[en_n++] = i; runs[i]++; if (rec[i] > 0) rec[i]--; if (rec[i] == 0) en[i] = false; else at[i] = (uint32_t) plat_us + P[i]; }
    sc->serviceSchedules(); sx_assert(on == en_n, "what is due runs, once"); for (int i = 0; i < 8; i++) { sx_assert(s[i]->runs == runs[i] && s[i]->enabled() == en[i] && s[i]->recurrence() == rec[i], "a schedule runs when due, and only then"); if (en[i]) sx_assert(s[i]->nextExec() == at[i], "the next execution is one period after the last"); }
  }
  for (int i = 0; i < en_n && i < 4096; i++) sx_assert(order[i] == expect[i], "schedules run in the order in which they came due"); sx_reach("done");
  for (int i = 0; i < 8; i++) delete s[i]; sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

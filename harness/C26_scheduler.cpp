//@ reach: ran due early overdue twice forever exhausted disabled postponed reset wrapped queued full lambda polled jitter
//@ bounds: 1 or 2 schedules, one of every period up to 2^30 (2^31 for a single run), and of -1, 0, 1 or 2 recurrences, enabled or not; every start of the clock; every sequence of 4 (thorough 5) steps of time (every amount below 2^28), advancing, servicing, postponing (by every amount below 2^27), resetting, enabling and disabling; up to 9 schedules added
//@ outside: recurrences below -1; schedules left unserviced for 2^31 us and more; enabling by flag without a new due time; postponing a schedule that is already queued; removal of schedules (not implemented); advancing from an interrupt while servicing; wrap of the count of ticks
#include "plat.h"
#include "rt_common.h"
#include "TimerTools/C3PScheduler.h"
struct Sch; static int order[64], on;
struct Sch : public C3PSchedule {
  int id, runs = 0; Sch(int i, uint32_t p, int32_t r, bool e) : C3PSchedule("s", p, r, e), id(i) {}
  int8_t _execute() override { sx_assert(executingNow(), "a schedule knows that it runs"); delay(5); delay(); runs++; order[on++] = id; return 0; }
  void _print_schedule(StringBuilder*) override {}
};
struct Mod { uint32_t at; int32_t rec; bool en, q, stale; int runs; uint32_t period; };
static int kinds;
struct Pol : public C3PPollable { PollResult poll() { kinds++; return PollResult::ACTION; } };
static void check(Sch** s, Mod* m, int n) { for (int i = 0; i < n; i++) { sx_assert(s[i]->enabled() == m[i].en && s[i]->recurrence() == m[i].rec, "recurrences are counted, and the last disables"); sx_assert(s[i]->runs == m[i].runs, "a schedule runs when due, and only then"); if (m[i].en) sx_assert(s[i]->nextExec() == m[i].at, "the next execution is one period after the last"); sx_assert(s[i]->willRunAgain() == (m[i].en && m[i].rec != 0), "a schedule knows whether it runs again"); sx_assert(!s[i]->executingNow(), "nothing runs outside of service"); } }
int sx_main() {
  plat_us_step = 0; plat_us = sx_u32("now");
  C3PScheduler* sc = C3PScheduler::getInstance(); sx_assert(sc->initialized() && sc == C3PScheduler::getInstance() && sc->scheduleCount() == 0, "there is one scheduler"); uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(4, "part")) {
    case 0: { // capacity and membership
      Sch* s[9]; for (int i = 0; i < 9; i++) s[i] = new Sch(i, 10, 1, i & 1); 
      sx_assert(sc->addSchedule(nullptr) != 0 && sc->scheduleCount() == 0, "no schedule is refused");
      for (int i = 0; i < 9; i++) { int r = sc->addSchedule(s[i]); sx_assert((r == 0) == (i < 8), "schedules are added up to the limit"); sx_assert(sc->containsSchedule(s[i]) == (i < 8), "an added schedule is known"); sx_assert(sc->addSchedule(s[0]) != 0 && sc->scheduleCount() == (unsigned) (i < 8 ? i + 1 : 8), "a schedule is added once"); }
      for (int i = 0; i < 8; i++) sx_assert(sc->getScheduleByIndex(i) == s[i], "schedules keep their order"); sx_reach("full");
      plat_us += 10; sc->advanceScheduler(); sc->serviceSchedules(); for (int i = 0; i < 9; i++) sx_assert(s[i]->runs == (i < 8 && (i & 1)), "all that are due run at once");
      sx_end();
    } break;
    case 1: { // the kinds
      uint32_t P = sx_u32("p"); sx_assume(P > 0 && P < 0x80000000u); int calls = 0; kinds = 0; Pol pol; C3PScheduledLambda* l = new C3PScheduledLambda("l", P, 1, true, [&calls]() { calls++; return 0; }); C3PScheduledPolling* p = new C3PScheduledPolling("p", P, 1, true, &pol); C3PScheduledPolling* z = new C3PScheduledPolling("z", P, 1, true, nullptr);
      sx_assert(l->valid() && l->period() == P && 0 == strcmp(l->handle(), "l"), "a schedule is as constructed"); sc->addSchedule(l); sc->addSchedule(p); sc->addSchedule(z); uint32_t d = sx_u32("d"); sx_assume(d - P < 0x7FFFFFFFu || P - d <= 0x80000000u); bool due = sx_branch(d - P < 0x7FFFFFFFu); uint32_t b = (uint32_t) plat_us; plat_us += d; if (sx_branch((uint32_t) plat_us < b)) sx_reach("wrapped"); sc->advanceScheduler(); sc->serviceSchedules();
      if (!due) { sx_assert(calls == 0 && kinds == 0 && z->recurrence() == 1 && z->enabled(), "nothing runs early"); sx_end(); }
      sx_assert(calls == 1 && kinds == 1 && z->recurrence() == 0 && !z->enabled(), "a schedule calls what it was made for"); sx_reach("lambda"); sx_reach("polled"); sx_end();
    } break;
    case 2: { // the jitter probe
      C3PScheduledJitterProbe* j = new C3PScheduledJitterProbe("j", 1000, -1, true, [](){ return 0; }); sc->addSchedule(j); plat_us += 1000; sc->advanceScheduler(); sc->serviceSchedules(); sx_assert(j->jitter.initialized() && j->jitter.totalSamples() == 0, "the first run of a probe prepares it");
      uint32_t got = 0, late = sx_u32("late"); sx_assume(late < 0x70000000u); plat_us += 1000; plat_us += late; sc->advanceScheduler(); sc->serviceSchedules(); sx_assert(j->jitter.totalSamples() == 1 && 0 == j->jitter.copyValueRange(&got, 1, 0, true) && got == late, "a probe records how late it ran"); sx_reach("jitter"); sx_end();
    } break;
    default: {
      int n = 1 + sx_choose(2, "n"); Sch* s[2]; Mod m[2]; int q[2], qn = 0; bool ticked = false; static const int32_t R[] = {-1, 0, 1, 2}; on = 0; int en = 0, expect[64];
      for (int i = 0; i < n; i++) {
        uint32_t P = i ? 0x01000000u : sx_u32("period"); sx_assume(P > 0 && P < 0x40000000u); m[i].rec = R[sx_choose(i ? 2 : 4, "rec") + (i ? 1 : 0)]; m[i].en = i ? true : sx_choose(2, "en"); m[i].period = P; m[i].runs = 0; m[i].q = m[i].stale = false; m[i].at = 0;
        s[i] = new Sch(i, P, m[i].rec, m[i].en); sx_assert(0 == sc->addSchedule(s[i]), "a schedule is added"); if (m[i].en) m[i].at = (uint32_t) plat_us + P;
      }
      check(s, m, n);
      for (int k = 0; k < (THOROUGH ? 5 : 4); k++) {
        switch (sx_choose(6, "op")) {
          case 0: { uint32_t d = sx_u32("dt"); sx_assume(d < 0x10000000u); plat_us += d; } break;
          case 1: {
            sc->advanceScheduler(); ticked = true;
            for (int i = 0; i < n; i++) if (m[i].en) { bool due = sx_branch((uint32_t) plat_us - m[i].at < 0x7FFFFFFFu); if (!due) { sx_reach("early"); continue; } sx_reach("due"); if (m[i].q) { sx_reach("twice"); continue; } m[i].q = true; q[qn++] = i; }
          } break;
          case 2: {
            sc->serviceSchedules(); 
            if (ticked) { for (int k2 = 0; k2 < qn; k2++) { int i = q[k2]; m[i].q = false; if (!m[i].en) { sx_reach("disabled"); continue; } sx_reach("ran"); m[i].runs++; expect[en++] = i; if (m[i].rec > 0) m[i].rec--; if (m[i].rec == 0) { m[i].en = false; m[i].at = 0; sx_reach("exhausted"); } else { m[i].at = (uint32_t) plat_us + m[i].period; if (m[i].rec < 0) sx_reach("forever"); } sx_assert(!m[i].en || s[i]->lastExec() == (uint32_t) plat_us, "a schedule knows when it ran last"); } qn = 0; if (on > 1) sx_reach("queued"); }
            sx_assert(on == en, "what is queued runs, once"); for (int i = 0; i < en; i++) sx_assert(order[i] == expect[i], "schedules run in the order in which they came due");
          } break;
          case 3: { int i = n > 1 ? sx_choose(2, "which") : 0; if (m[i].q) break; uint32_t by = sx_u32("by"); sx_assume(by < 0x08000000u); s[i]->delay(by); if (!m[i].en) { m[i].at = (uint32_t) plat_us; m[i].en = true; } m[i].at += by; sx_reach("postponed"); } break;
          case 4: { int i = n > 1 ? sx_choose(2, "which") : 0; if (m[i].q) break; s[i]->delay(); m[i].at = (uint32_t) plat_us + m[i].period; m[i].en = true; sx_reach("reset"); } break;
          default: { int i = n > 1 ? sx_choose(2, "which") : 0; s[i]->enabled(false); m[i].en = false; } break;
        }
        check(s, m, n);
      }
      for (int i = 0; i < n; i++) if (m[i].en && sx_branch((uint32_t) plat_us - m[i].at < 0x7FFFFFFFu)) sx_reach("overdue");
      for (int i = 0; i < n; i++) delete s[i];
      sx_assert(sx_heap_bytes() == heap0, "all memory returned");
    } break;
  }
  return 0;
}

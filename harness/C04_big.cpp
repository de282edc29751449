//@ reach: done
//@ bounds: and pools of 300 elements with an overdraw limit of 300, in two rounds
#include "sx.h"
#include "ElementPool.h"
#include "rt_common.h"
struct Thing { uint32_t a; Thing() : a(7) {} };
static Thing* out[700];
int sx_main() {
  sx_budget(200000000);
  uint32_t heap0 = sx_heap_bytes();
  {
    const uint32_t CAP = sx_choose(2, "cap") ? 300 : 256, LIM = sx_choose(2, "lim") ? 300 : 256; const uint32_t fill = sx_u32("fill");
    ElementPool<Thing> pool(CAP, LIM);
    for (int round = 0; round < 2; round++) {
      for (uint32_t i = 0; i < CAP + LIM; i++) {
        Thing* t = pool.take(); sx_assert(t != nullptr, "a large pool hands out as many as it may"); if (!t) return 0;
        sx_assert(pool.inPool(t) == (i < CAP), "a large pool hands out its own first"); out[i] = t; t->a = fill + i;
        sx_assert(pool.available() == ((i < CAP) ? CAP - i - 1 : 0), "what is available of a large pool");
      }
      sx_assert(pool.take() == nullptr, "a large pool hands out no more than it may");
      for (uint32_t i = 0; i < CAP + LIM; i++) sx_assert(out[i]->a == fill + i, "elements of a large pool do not share memory");
      sx_assert(pool.lowWaterMark() == 0 && pool.overdraws() == LIM * (round + 1), "counters of a large pool");
      for (uint32_t i = 0; i < CAP + LIM; i++) sx_assert(pool.give(out[(i * 7) % (CAP + LIM)]) == ((i * 7) % (CAP + LIM) < CAP ? 1 : 0), "a large pool takes back what it gave");
      sx_assert(pool.available() == CAP && pool.overdrawsFreed() == LIM * (round + 1), "counters of a large pool");
    }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

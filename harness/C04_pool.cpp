//@ reach: overdraw refused reused overdraw-freed limit-lowered
//@ bounds: pools of 0..3 elements (quick) / 0..4 (thorough), overdraw limits 0..2 and one arbitrary 32-bit change of the limit, every take/give sequence of 7 (quick) / 9 (thorough) steps giving back any outstanding element, pool memory owned by the pool or by the caller
//@ outside: giving the same element back twice, giving back an element that was not taken
#include "sx.h"
#include "ElementPool.h"
#include "rt_common.h"
static int ctors = 0;
struct Thing { uint32_t a; uint8_t b; Thing() : a(0x1234), b(9) { ctors++; } };
static Thing extmem[8];
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    const uint32_t CAP = sx_choose(THOROUGH ? 5 : 4, "cap"); uint32_t lim = sx_choose(3, "limit"); bool ext = sx_choose(2, "external") && CAP > 0;
    ElementPool<Thing> pool(CAP, lim, ext ? extmem : nullptr);
    sx_assert(pool.capacity() == CAP && pool.overdrawLimit() == lim, "capacity and overdraw limit as constructed");
    if (ext) { const uint32_t at = sx_range(0, 7, "at"); sx_assert(pool.inPool(&extmem[at]) == (at < CAP), "a pool knows its own elements from what lies behind them"); }
    Thing* out[16]; bool od[16]; uint32_t n = 0, odOut = 0, odTotal = 0, odFreed = 0, used = 0, low = CAP; uint32_t tag = 1;
    if (sx_choose(2, "preinit")) sx_assert(pool.allocated(), "pool becomes ready");
    const int steps = THOROUGH ? 9 : 7; bool changed = false;
    for (int s = 0; s < steps; s++) {
      uint32_t op = sx_choose(changed ? 2 : 3, "op");
      if (op == 0) {
        Thing* t = pool.take();
        if (used < CAP) {
          sx_assert(t != nullptr, "an available element is handed out");
          if (t == nullptr) return 0;
          sx_assert(pool.inPool(t), "pooled elements come first");
          if (ext) sx_assert(t >= extmem && t < extmem + CAP, "caller memory is used when given");
          od[n] = false; used++;
        }
        else if (odOut < lim) {
          sx_assert(t != nullptr, "an element is allocated on overdraw while below the limit");
          if (t == nullptr) return 0;
          sx_assert(!pool.inPool(t), "overdrawn elements are not pool elements"); od[n] = true; odOut++; odTotal++; sx_reach("overdraw"); }
        else { sx_assert(t == nullptr, "nothing is handed out past the overdraw limit"); sx_reach("refused"); }
        if (CAP - used < low) low = CAP - used;
        if (t) {
          for (uint32_t i = 0; i < n; i++) sx_assert(out[i] != t, "an outstanding element is never handed out again");
          out[n++] = t; t->a = tag++; t->b = (uint8_t) tag;
        }
      }
      else if (op == 1) {
        if (n == 0) break;
        uint32_t k = sx_choose(n, "which"); Thing* t = out[k];
        int8_t r = pool.give(t);
        sx_assert(r == (od[k] ? 0 : 1), "give tells a reclaimed element from a freed one");
        if (od[k]) { odOut--; odFreed++; sx_reach("overdraw-freed"); } else { used--; sx_reach("reused"); }
        for (uint32_t i = k + 1; i < n; i++) { out[i - 1] = out[i]; od[i - 1] = od[i]; } n--;
      }
      else { lim = sx_u32("newlimit"); pool.overdrawLimit(lim); lim = sx_branch(lim >= 16) ? 16 : sx_concretize(lim); if (odOut > lim) sx_reach("limit-lowered"); changed = true; }
      if (pool.allocated()) sx_assert(pool.available() == CAP - used, "available");
      sx_assert(pool.overdraws() == odTotal && pool.overdrawsFreed() == odFreed, "overdraw counters");
      sx_assert(pool.lowWaterMark() == low, "low water mark");
    }
    for (uint32_t i = 0; i < n; i++) for (uint32_t j = i + 1; j < n; j++) sx_assert(out[i]->a != out[j]->a, "outstanding elements do not share memory");
    for (uint32_t i = 0; i < n; i++) pool.give(out[i]);
    sx_assert(pool.overdraws() == pool.overdrawsFreed(), "every overdraw returned is freed");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: full wrapped bulk purged rewindowed null raw median average restrategy notfull borrowed
//@ bounds: filters of int8_t samples (int32_t and uint32_t without changes of state) with windows of 1 to 3, strategies raw, moving median and moving average; every sequence of 2 (thorough 3) operations after a full window or an empty one, of feeding, bulk filling, purging, changing window and strategy; every sample value for raw and median, samples drawn from {least, -3, 0, 1, greatest} for the moving average
//@ outside: harmonic and geometric means and quantizing (not implemented: they are raw); NaN samples; serialization, which is one way
#include "sx.h"
#include "rt_common.h"
#include "TimeSeries/SensorFilter.h"
template <class T> static T fresh(bool sym) { if (!sym) { static const T V[5] = {(T) ((T) -1 < 0 ? (uint64_t) 1 << (8 * sizeof(T) - 1) : 0), (T) -3, 0, 1, (T) ((T) -1 < 0 ? ((uint64_t) 1 << (8 * sizeof(T) - 1)) - 1 : (uint64_t) -1)}; return V[sx_choose(5, "v")]; } if (sizeof(T) == 1) return (T) sx_u8("x"); return (T) sx_u32("x"); }
template <class T> static T med(const T* m, uint32_t w) {
  if (w == 1) return m[0];
  if (w == 2) { T a = m[0] < m[1] ? m[0] : m[1], b = m[0] < m[1] ? m[1] : m[0]; if (a < 0 && b >= 0) return (a + b) / 2; if (a < 0) return b - (T) ((b - a) / 2); return a + (T) ((b - a) / 2); }
  return m[0] < m[1] ? (m[1] < m[2] ? m[1] : (m[0] < m[2] ? m[2] : m[0])) : (m[0] < m[2] ? m[0] : (m[1] < m[2] ? m[2] : m[1]));
}
template <class T> static void run(int steps) {
  uint32_t heap0 = sx_heap_bytes();
  static const FilteringStrategy ST[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_MED, FilteringStrategy::MOVING_AVG};
  int strat = sx_choose(3, "strat"); bool sym = strat != 2; uint32_t w = 1 + sx_choose(3, "w"); bool self = sx_choose(2, "self"); T stat[3]; memset(stat, 0x77, sizeof(stat));
  SensorFilter<T>* f = self ? new SensorFilter<T>(w, ST[strat]) : new SensorFilter<T>(stat, (int) w, ST[strat]);
  if (!self) { memset(stat, 0, sizeof(stat)); sx_reach("borrowed"); }
  sx_assert(!f->initialized() && f->windowSize() == 0 && f->feedFilter((T) 1) == -1 && f->feedFilter() == -1 && f->value() == (T) 0, "nothing is taken before initialization");
  sx_assert(0 == f->init() && f->initialized() && f->windowSize() == w && f->memUsed() == w * sizeof(T) && f->strategy() == ST[strat] && !f->windowFull(), "initialization");
  T mem[4] = {0, 0, 0, 0}; uint32_t n = 0; T last = 0; bool full = false, dirty = false, moved = false; int pre = sx_choose(2, "pre") ? sym ? (int) w + (strat == 0 && w > 1) : 1 + THOROUGH : 0;
  for (int s = -pre; s < steps; s++) {
    switch (s < 0 ? 0 : sx_choose(5, "op")) {
      case 0: { T v = fresh<T>(sym); if (w) { mem[n % w] = v; n++; if (n % w == 0) full = true; } else full = true;
        if (!w || strat == 0) { last = v; sx_reach(w ? "raw" : "null"); } else if (strat == 1) { last = med(mem, w); sx_reach("median"); } else { last = (T) (((double) last * (double) (w - 1) + (double) v) / (double) w); sx_reach("average"); }
        sx_assert(f->feedFilter(v) == (full ? 1 : 0), "feeding reports whether the window is full"); if (full) dirty = true; break; }
      case 1: if (!w) sx_end(); for (uint32_t i = 0; i < w; i++) mem[i] = f->memPtr()[i] = fresh<T>(true); n += w - n % w; full = true; sx_assert(f->feedFilter() == 0, "bulk filling"); moved = true; sx_reach("bulk"); break;
      case 2: sx_assert((0 == f->purge()) == (w > 0), "purge"); n = 0; moved = false; full = false; last = 0; memset(mem, 0, sizeof(mem)); sx_reach("purged"); break;
      case 3: { uint32_t k = sx_choose(4, "k"); int8_t r = f->windowSize(k); if (self || k == w) { sx_assert((r == 0) == (k > 0 || w > 0), "changing the window"); if (k != 0 || !w) { last = 0; } if (k) { n = 0; moved = false; } else if (w) n = 0, moved = true; w = k; full = false; memset(mem, 0, sizeof(mem)); sx_reach("rewindowed"); } else sx_assert(r < 0, "a borrowed buffer can not be resized"); break; }
      case 4: { int k = sx_choose(2, "k") ? (strat == 1 ? 0 : 1) : strat; sx_assert((f->setStrategy(ST[k]) == 0) == (k != strat), "changing the strategy"); if (k != strat) { last = 0; sx_reach("restrategy"); } strat = k; if (k == 2) sx_end(); break; }
    }
    if (w) sx_assert(f->initialized() && f->windowSize() == w && (f->windowFull() != 0) == full && f->lastIndex() == n % w, "state of the filter"); if (!moved && w) sx_assert(f->totalSamples() == n, "samples are counted");
    if (w) { sx_assert(f->dirty() == dirty, "a full filter that was fed is dirty"); sx_assert(f->value() == last, "filtered value"); dirty = false; } else if (s == steps - 1) sx_assert(f->mean() == f->mean() && f->median() == (T) 0, "statistics of nothing"); 
  }
  if (n > w) sx_reach("wrapped");
  if (w && (steps < 2 || strat == 0)) {
    T lo = f->minValue(), hi = f->maxValue(), md = f->median();
    if (full) { sx_reach("full"); bool in1 = false, in2 = false, ok = true; for (uint32_t i = 0; i < w; i++) { sx_assert(f->memPtr()[i] == mem[i], "samples in memory"); ok = ok & (mem[i] >= lo) & (mem[i] <= hi); in1 = in1 | (mem[i] == lo); in2 = in2 | (mem[i] == hi); } sx_assert(ok & in1 & in2, "least and greatest of the window"); sx_assert(md == med(mem, w), "median of the window"); }
    else { sx_assert(lo == (T) 0 && hi == (T) 0 && f->mean() == 0 && f->rms() == 0 && f->stdev() == 0, "no statistics before the window is full"); sx_reach("notfull"); }
  }
  delete f; sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() { int t = sx_choose(3, "type"); if (t == 0) run<int8_t>(2 + THOROUGH); else if (t == 1) run<int32_t>(THOROUGH); else run<uint32_t>(THOROUGH); return 0; }

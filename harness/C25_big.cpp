//@ reach: done
//@ bounds: and windows of 255 to 257 and 300 samples
#include "sx.h"
#include "rt_common.h"
#include "TimeSeries/SensorFilter.h"
template <class T> static void run(uint32_t w) {
  uint32_t heap0 = sx_heap_bytes();
  {
    const int strat = sx_choose(3, "strat"); static const FilteringStrategy ST[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_MED, FilteringStrategy::MOVING_AVG}; SensorFilter<T> f(w, ST[strat]); sx_assert(0 == f.init() && f.windowSize() == w, "initialization");
    const uint32_t total = w + (strat == 1 ? 3 : sx_choose(2, "more") * 37); uint32_t seed = 5; T* mem = (T*) malloc(w * sizeof(T)); memset(mem, 0, w * sizeof(T)); double avg = 0;
    for (uint32_t n = 0; n < total; n++) {
      seed = seed * 1103515245 + 12345; const T v = (T) ((int32_t) (seed >> 16) % 2000); mem[n % w] = v; if (strat == 1 && n < w) { f.memPtr()[n] = v; if (n + 1 == w) sx_assert(0 == f.feedFilter(), "bulk filling"); } else sx_assert(f.feedFilter(v) == (n + 1 >= w ? 1 : 0), "feeding reports whether the window is full"); avg = (avg * (w - 1) + v) / w;
      if (n + 1 < w && (n & 63)) continue; if (strat == 1 && n + 1 <= w) continue;
      const T x = f.value();
      if (strat == 0) sx_assert(x == v, "a raw filter gives the last sample"); else if (strat == 1) { uint32_t below = 0, above = 0; for (uint32_t i = 0; i < w; i++) { if (mem[i] < x) below++; if (mem[i] > x) above++; } sx_assert(below <= w / 2 && above <= w / 2, "a median filter gives the median of a long window"); }
      else if ((T) 0.5 != 0) { double d = (double) x - avg; sx_assert(d < 0.5 && d > -0.5, "an average filter gives the moving average"); }
    }
    T lo = mem[0], hi = mem[0]; double sum = 0, sq = 0; for (uint32_t i = 0; i < w; i++) { if (mem[i] < lo) lo = mem[i]; if (mem[i] > hi) hi = mem[i]; sum += mem[i]; sq += (double) mem[i] * mem[i]; }
    sx_assert(f.windowFull() && f.minValue() == lo && f.maxValue() == hi, "least and greatest of a long window"); double d = f.mean() - sum / w; sx_assert(d < 0.01 && d > -0.01, "mean of a long window"); double r = (double) f.rms() * f.rms() - sq / w, tol = sq / w * 0.0001; sx_assert(r < tol && r > -tol, "root mean square of a long window");
    const double mean = sum / w; double var = 0; for (uint32_t i = 0; i < w; i++) var += (mem[i] - mean) * (mem[i] - mean); var /= w; double sd = (double) f.stdev() * f.stdev(); sx_assert(sd - var < var * 0.01 && var - sd < var * 0.01, "deviation of a long window"); sx_assert(f.lastIndex() == total % w && f.totalSamples() == total, "samples are counted"); free(mem);
  }
  sx_reach("done"); sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() { sx_budget(400000000); static const uint32_t W[] = {255, 256, 257, 300}; const uint32_t w = W[sx_choose(4, "w")]; if (sx_choose(2, "type")) run<int32_t>(w); else run<float>(w); return 0; }

//@ reach: done
//@ bounds: and windows of 255 to 257, 300 and 1000 samples, fed up to three windows
#include "sx.h"
#include "rt_common.h"
#include "TimeSeries/TimeSeries.h"
template <class T> static void run(uint32_t w) {
  uint32_t heap0 = sx_heap_bytes();
  {
    TimeSeries<T> ts(w); sx_assert(0 == ts.init() && ts.windowSize() == w, "initialization"); static const int M[] = {0, 1, 299, 500}; const uint32_t extra = M[sx_choose(4, "extra")]; const uint32_t total = 2 * w + extra; uint32_t n = 0; uint32_t seed = 1; T* hist = (T*) malloc(total * sizeof(T));
    for (; n < total; n++) { seed = seed * 1103515245 + 12345; const T v = (T) ((int32_t) (seed >> 16) % 2000 - (((T) -1 < (T) 0) ? 1000 : 0)); hist[n] = v; sx_assert(ts.feedSeries(v) == (n + 1 >= w ? 1 : 0), "feeding reports whether the window is full"); }
    sx_assert(ts.totalSamples() == n && ts.lastIndex() == n % w && ts.windowFull(), "state of the series"); sx_assert(ts.value() == hist[n - 1], "most-recent value");
    T* win = hist + n - w; T lo = win[0], hi = win[0]; double sum = 0, sq = 0; for (uint32_t i = 0; i < w; i++) { if (win[i] < lo) lo = win[i]; if (win[i] > hi) hi = win[i]; sum += win[i]; sq += (double) win[i] * win[i]; }
    sx_assert(ts.minValue() == lo && ts.maxValue() == hi, "least and greatest of a long window"); const double mean = sum / w; double d = ts.mean() - mean; sx_assert(d < 0.01 && d > -0.01, "mean of a long window"); double r = (double) ts.rms() * ts.rms() - sq / w; double tol = sq / w * 0.0001; sx_assert(r < tol && r > -tol, "root mean square of a long window");
    double var = 0; for (uint32_t i = 0; i < w; i++) var += (win[i] - mean) * (win[i] - mean); var /= w; double sd = (double) ts.stdev() * ts.stdev(); sx_assert(sd - var < var * 0.01 && var - sd < var * 0.01, "deviation of a long window");
    const T med = ts.median(); uint32_t below = 0, above = 0; for (uint32_t i = 0; i < w; i++) { if (win[i] < med) below++; if (win[i] > med) above++; } sx_assert(below <= w / 2 && above <= w / 2, "median of a long window");
    T* cp = (T*) malloc(w * sizeof(T)); sx_assert(0 == ts.copyValues(cp, w, false), "copying a long window"); for (uint32_t i = 0; i < w; i++) sx_assert(cp[i] == win[i], "copying a long window"); sx_assert(0 == ts.copyValues(cp, w - 3, false), "copying most of a long window"); for (uint32_t i = 0; i + 3 < w; i++) sx_assert(cp[i] == win[i + 3], "copying most of a long window"); free(cp); free(hist);
  }
  sx_reach("done"); sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() { sx_budget(400000000); static const uint32_t W[] = {255, 256, 257, 300, 1000}; const uint32_t w = W[sx_choose(5, "w")]; switch (sx_choose(3, "type")) { case 0: run<int16_t>(w); break; case 1: run<uint32_t>(w); break; default: run<float>(w); } return 0; }

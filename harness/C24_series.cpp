//@ reach: full wrapped bulk purged rewindowed copied absolute refused minmax notfull borrowed
//@ bounds: series of int8_t, uint16_t, int32_t and uint64_t samples with windows of 1 to 3, and float windows; every sequence of 5 (thorough 6) operations of feeding, bulk filling, purging, marking clean and changing the window; every sample value; every range of copying
//@ outside: 2^32 samples and more; dirty() after an exact multiple of 65536 samples; reading most-recent ranges with an offset; statistics after the window was set to nothing; NaN samples; TimeSeries3 (it is abstract: it cannot be instantiated); offsets of copying beyond 2^31
#include "sx.h"
#include "rt_common.h"
#include "TimeSeries/TimeSeries.h"
template <class T> static T fresh() { if (sizeof(T) == 1) return (T) sx_u8("x"); if (sizeof(T) == 2) return (T) sx_u16("x"); if (sizeof(T) == 4) return (T) sx_u32("x"); return (T) sx_u64("x"); }
template <class T> static void run(int steps, int mode) {
  uint32_t heap0 = sx_heap_bytes();
  T stat[3]; bool self = sx_choose(2, "self"); uint32_t w = 1 + sx_choose(3, "w"); memset(stat, 0x77, sizeof(stat));
  TimeSeries<T>* ts = self ? new TimeSeries<T>(w) : new TimeSeries<T>(stat, w);
  sx_assert(!ts->initialized() && ts->windowSize() == 0 && ts->feedSeries((T) 1) == -1 && ts->feedSeries() == -1 && ts->totalSamples() == 0, "nothing is taken before initialization");
  sx_assert(0 == ts->init() && ts->initialized() && ts->windowSize() == w && ts->memUsed() == w * sizeof(T), "initialization"); if (!self) { sx_assert(ts->memPtr() == stat && !stat[0], "a borrowed buffer is used"); sx_reach("borrowed"); }
  T hist[32]; uint32_t n = 0; uint16_t clean = 0; bool any = false;
  int8_t stale = 0;
  for (int s = 0; s < steps; s++) {
    switch ((mode && sizeof(T) > 2) ? 0 : sx_choose(s ? mode ? 4 : 5 : 2, "op")) {
      case 0: { T v = fresh<T>(); hist[n++] = v; sx_assert(ts->feedSeries(v) == (n >= w ? 1 : 0), "feeding reports whether the window is full"); break; }
      case 1: for (uint32_t i = 0; i < w; i++) { T v = fresh<T>(); hist[n] = v; ts->memPtr()[n % w] = v; n++; } sx_assert(ts->feedSeries() == 1, "bulk filling"); sx_reach("bulk"); break;
      case 2: sx_assert(0 == ts->purge(), "purge"); n = 0; clean = 0; sx_reach("purged"); break;
      case 3: { uint32_t k = 1 + sx_choose(3, "k"); int8_t r = ts->windowSize(k); if (self || k == w) { sx_assert(r == 0, "changing the window"); w = k; n = 0; clean = 0; sx_reach("rewindowed"); } else sx_assert(r < 0, "a borrowed buffer can not be resized"); break; }
      case 4: if (sx_choose(2, "v")) { sx_assert(ts->value() == (n >= w ? hist[n - 1] : (T) 0), "most-recent value"); if (n >= w) clean = n; } else { ts->markClean(); clean = n; } break;
    }
    sx_assert(ts->initialized() && ts->windowSize() == w && ts->totalSamples() == n && ts->windowFull() == (n >= w) && ts->lastIndex() == n % w && ts->dirty() == (clean != n), "state of the series");
    // Cached statistics must follow the samples, so they are asked for at some steps.
    if (mode && (s == steps - 1 || (s == steps - 2 && sx_choose(2, "ask")))) {
      T lo = ts->minValue(), hi = ts->maxValue(), med = ts->median();
      if (n >= w) {
        T* win = hist + n - w; T a = win[0], b = win[0]; for (uint32_t i = 1; i < w; i++) { if (sx_branch(win[i] < a)) a = win[i]; else if (sx_branch(win[i] > b)) b = win[i]; }
        sx_assert(lo == a && hi == b, "least and greatest of the window"); sx_reach("minmax"); any = true;
        if (w == 1) sx_assert(med == win[0], "median of one");
        else if (w == 3) { T m = win[0] < win[1] ? (win[1] < win[2] ? win[1] : (win[0] < win[2] ? win[2] : win[0])) : (win[0] < win[2] ? win[0] : (win[1] < win[2] ? win[2] : win[1])); sx_assert(med == m, "median of three"); }
        else if (sizeof(T) < 4) { int32_t rest = (int32_t) a + (int32_t) b - 2 * (int32_t) med; sx_assert(rest == 0 || (rest == 1 && med >= 0 && b > 0) || (rest == -1 && med <= 0 && a < 0), "median of two is their mean, without overflow"); }
        else if (a < 0 && b >= 0) sx_assert(med == (a + b) / 2, "median of two is their mean, without overflow");
        else if (a < 0) sx_assert(med == b - (b - a) / 2, "median of two is their mean, without overflow");
        else sx_assert(med == a + (b - a) / 2, "median of two is their mean, without overflow");
      }
      else { sx_assert(lo == (T) 0 && hi == (T) 0 && med == (T) 0 && ts->mean() == 0 && ts->rms() == 0 && ts->stdev() == 0, "no statistics before the window is full"); sx_reach("notfull"); }
    }
  }
  if (n >= w) sx_reach("full"); if (n > w) sx_reach("wrapped");
  if (mode) { delete ts; sx_assert(sx_heap_bytes() == heap0, "all memory returned"); return; }
  int last = sx_choose(self ? 3 : 2, "last");
  if (last == 0) { uint32_t m = sx_choose(w, "m"); if (n > m) { uint32_t k = (n - 1) / w * w + m; if (k >= n) k -= w; sx_assert(ts->indexIsWhichSample(m) == k, "which sample a memory index holds"); } else sx_assert(ts->indexIsWhichSample(m) == 0, "no such sample"); }
  else if (last == 1) {
  { uint32_t cnt = sx_choose(5, "cnt"); bool abs = sx_choose(2, "abs"); uint32_t off = abs ? sx_choose(3, "off") : 0; T* d = (T*) malloc((cnt ? cnt : 1) * sizeof(T)); memset(d, 0x5A, cnt * sizeof(T)); T keep; memset(&keep, 0x5A, sizeof(T)); bool was = ts->dirty();
    int8_t r = (off || cnt & 1) ? ts->copyValueRange(d, cnt, off, abs) : ts->copyValues(d, cnt, abs); bool ok = cnt && cnt <= w && n >= cnt + off; sx_assert((r == 0) == ok, "ranges of existing samples can be copied");
    for (uint32_t i = 0; i < cnt; i++) { if (!ok) sx_assert(d[i] == keep, "a refused copy writes nothing"); else if (!abs) sx_assert(d[i] == hist[n - cnt + i], "the most-recent samples, in order"); else { uint32_t q = (off + i) % w, k = (n - 1) / w * w + q; if (k >= n) k -= w; sx_assert(d[i] == hist[k], "samples by memory index"); } }
    sx_assert(ts->dirty() == (ok ? false : was), "copying marks the series as clean"); if (ok) { sx_reach("copied"); if (abs) sx_reach("absolute"); } else sx_reach("refused"); free(d); }
  }
  else { { sx_assert(0 == ts->windowSize((uint32_t) 0) && !ts->initialized() && ts->windowSize() == 0 && ts->totalSamples() == 0 && ts->feedSeries((T) 5) == -1 && ts->value() == (T) 0, "a window of nothing"); T d[1]; sx_assert(0 != ts->copyValueRange(d, 1, 0), "nothing to copy"); sx_assert(0 == ts->windowSize(w) && ts->initialized() && ts->feedSeries((T) 5) == (w == 1) && ts->totalSamples() == 1, "and back"); } }
  delete ts; sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() {
  int mode = sx_choose(2, "mode"), t = sx_choose(mode ? 4 : 1 + THOROUGH, "type"), st = mode ? 3 + THOROUGH : 4 + THOROUGH;   // 0: operations and copies, 1: statistics
  if (t == 0) run<int8_t>(st, mode); else if (t == 1) run<uint64_t>(st, mode); else if (t == 2) run<int32_t>(st, mode); else run<uint16_t>(st, mode);
  return 0;
}

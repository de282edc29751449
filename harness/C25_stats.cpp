//@ reach: stats snr vectors vecmedian vecaverage
//@ bounds: statistics of every window of 1 to 3 (thorough 4) samples drawn from {least, -1, 0, 1, 3, greatest} of int8_t, of {0, 1, 200, greatest} of uint16_t and of {-2.5, 0, 1.25, 1e10} of float, in any rotation; vector filters of float with windows of 1 to 3 and vectors drawn from 4 values (thorough 5)
//@ outside: magnitudes at which a double loses integer precision
#include "sx.h"
#include "rt_common.h"
#include <math.h>
#include "TimeSeries/SensorFilter.h"
static bool near(double a, double b) { double d = a > b ? a - b : b - a, m = b > 0 ? b : -b; return d <= 1e-9 * m + 1e-12; }
static bool nearf(double a, double b) { double d = a > b ? a - b : b - a, m = b > 0 ? b : -b; return d <= 1e-5 * m + 1e-7; }
template <class T> static void stats(const T* vals, int nv) {
  uint32_t w = 1 + sx_choose(THOROUGH ? 4 : 3, "w"), rot = sx_choose(2, "rot"); SensorFilter<T> f(w, FilteringStrategy::RAW); f.init(); T x[4]; for (uint32_t i = 0; i < rot; i++) f.feedFilter((T) 7);
  if (rot && w == 1) { f.mean(); f.rms(); f.minValue(); }   // statistics that are cached
  for (uint32_t i = 0; i < w; i++) { x[i] = vals[sx_choose(nv, "v")]; f.feedFilter(x[i]); }
  double sum = 0, sq = 0, dev = 0; for (uint32_t i = 0; i < w; i++) { sum += (double) x[i]; sq += (double) x[i] * (double) x[i]; } double mean = sum / w; for (uint32_t i = 0; i < w; i++) dev += ((double) x[i] - mean) * ((double) x[i] - mean);
  int order = sx_choose(3, "order"); if (order == 1) { if (w > 1) f.snr(); f.stdev(); f.rms(); } else if (order == 2) sx_assert(near(f.stdev(), sqrt(dev / w)), "standard deviation, of all statistics first");
  sx_assert(near(f.mean(), mean), "mean"); sx_assert(near(f.rms(), sqrt(sq / w)), "root mean square"); sx_assert(near(f.stdev(), sqrt(dev / w)), "standard deviation"); sx_reach("stats");
  if (w > 1 && dev > 0) { sx_assert(near(f.snr(), mean / sqrt(dev / w)), "signal to noise"); sx_reach("snr"); }
  f.feedFilter(vals[0]); sum += (double) vals[0] - (double) x[0]; sx_assert(near(f.mean(), sum / w), "mean follows the window");
}
static void vectors() {
  uint32_t heap0 = sx_heap_bytes(); {
  static const float V[5][3] = {{1, -2, 3}, {0, 0, 0}, {-5.5f, 4, 0.25f}, {100, 1, -70}, {2, 2, 2}};
  static const FilteringStrategy ST[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_MED, FilteringStrategy::MOVING_AVG};
  int strat = sx_choose(3, "strat"); uint32_t w = 1 + sx_choose(3, "w"), n = 0, pick[8]; SensorFilter3<float> f(w, ST[strat]); sx_assert(f.feedFilter(1, 2, 3) == -1, "nothing is taken before initialization"); sx_assert(0 == f.init(), "initialization");
  Vector3<float> avg(0, 0, 0); uint32_t total = 1 + sx_choose(4, "n");
  for (; n < total; n++) {
    uint32_t k = pick[n] = sx_choose(4 + THOROUGH, "v"); Vector3<float> v(V[k][0], V[k][1], V[k][2]); avg.x = (float) (((double) avg.x * (w - 1) + v.x) / w); avg.y = (float) (((double) avg.y * (w - 1) + v.y) / w); avg.z = (float) (((double) avg.z * (w - 1) + v.z) / w);
    sx_assert((n & 1 ? f.feedFilter(&v) : f.feedFilter(v.x, v.y, v.z)) == (n + 1 >= w ? 1 : 0), "feeding reports whether the window is full"); Vector3<float>* o = f.value();
    if (strat == 0) sx_assert(*o == v, "the raw vector"); else if (strat == 2) { sx_assert(nearf(o->x, avg.x) && nearf(o->y, avg.y) && nearf(o->z, avg.z), "running average of vectors"); sx_reach("vecaverage"); }
  }
  sx_assert(f.totalSamples() == n && (f.windowFull() != 0) == (n >= w) && f.lastIndex() == n % w, "state of the filter");
  if (n >= w) {
    double m[3], q[3], d[3], md[3]; float lo = 1e30f, hi = -1; uint32_t b = n - w; sx_reach("vectors");
    for (int c = 0; c < 3; c++) { m[c] = q[c] = d[c] = 0; for (uint32_t i = b; i < n; i++) { m[c] += V[pick[i]][c]; q[c] += (double) V[pick[i]][c] * V[pick[i]][c]; } m[c] /= w; for (uint32_t i = b; i < n; i++) d[c] += (V[pick[i]][c] - m[c]) * (V[pick[i]][c] - m[c]); double s[3]; for (uint32_t i = 0; i < w; i++) s[i] = V[pick[b + i]][c]; for (uint32_t i = 0; i < w; i++) for (uint32_t j = i + 1; j < w; j++) if (s[j] < s[i]) { double t = s[i]; s[i] = s[j]; s[j] = t; } md[c] = w & 1 ? s[w / 2] : (s[w / 2] + s[w / 2 - 1]) / 2; }
    for (uint32_t i = b; i < n; i++) { float l = Vector3<float>(V[pick[i]][0], V[pick[i]][1], V[pick[i]][2]).length(); if (l < lo) lo = l; if (l > hi) hi = l; }
    if (strat == 1) { Vector3<float>* o = f.value(); sx_assert(nearf(o->x, md[0]) && nearf(o->y, md[1]) && nearf(o->z, md[2]), "median of vectors"); sx_reach("vecmedian"); }
    if (sx_choose(2, "order")) { f.stdev(); f.rms(); }
    sx_assert(near(f.mean()->x, m[0]) && near(f.mean()->y, m[1]) && near(f.mean()->z, m[2]), "mean of vectors"); sx_assert(near(f.rms()->x, sqrt(q[0] / w)) && near(f.rms()->y, sqrt(q[1] / w)) && near(f.rms()->z, sqrt(q[2] / w)), "root mean square of vectors");
    if (w > 1) sx_assert(near(f.stdev()->x, sqrt(d[0] / w)) && near(f.stdev()->y, sqrt(d[1] / w)) && near(f.stdev()->z, sqrt(d[2] / w)), "deviation of vectors");
    sx_assert(f.minValue()->length() == lo && f.maxValue()->length() == hi, "shortest and longest vector");
  }
  sx_assert(0 == f.purge() && f.totalSamples() == 0 && !f.windowFull() && f.value()->x == 0, "purge"); sx_assert(f.feedFilter(4, 5, 6) == (w == 1 ? 1 : 0) && f.lastIndex() == 1 % w, "and again"); sx_assert(0 == f.windowSize((uint32_t) 2) && f.windowSize() == 2 && f.totalSamples() == 0, "changing the window");
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() {
  switch (sx_choose(4, "mode")) {
    case 0: { static const int8_t V[] = {-128, -1, 0, 1, 3, 127}; stats<int8_t>(V, 6); break; }
    case 1: { static const uint16_t V[] = {0, 1, 200, 65535}; stats<uint16_t>(V, 4); break; }
    case 2: { static const float V[] = {-2.5f, 0, 1.25f, 1e10f}; stats<float>(V, 4); break; }
    case 3: vectors(); break;
  }
  return 0;
}

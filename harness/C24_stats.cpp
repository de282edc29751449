//@ reach: stats steady snr sent loaded refused hostile resumed
//@ bounds: statistics of every window of 1 to 3 (thorough 4) samples drawn from {least, -1, 0, 1, 3, greatest} of int8_t, of {0, 1, 200, greatest} of uint16_t and of {-2.5, 0, 1.25, 1e10} of float; packing and unpacking of int8_t, uint32_t and int64_t series with windows of 1 to 3, every rotation of the window and every sample value, with and without name and units; maps of up to 2 (thorough 3) of the known keys with values of integer, negative, text, floating point and nested types, and maps with all keys, every total and index, and every content of data
//@ outside: formats other than CBOR; packing a series whose window is not full (refused, but output is left behind); unpacking onto an existing series
#include "sx.h"
#include "rt_common.h"
#include <math.h>
#include "TimeSeries/TimeSeries.h"
#include "cbor-cpp/cbor.h"
#include "C3PValue/C3PValue.h"
static bool near(double a, double b) { double d = a > b ? a - b : b - a, m = b > 0 ? b : -b; return d <= 1e-9 * m + 1e-12; }
template <class T> static void stats(const T* vals, int nv) {
  uint32_t w = 1 + sx_choose(THOROUGH ? 4 : 3, "w"), rot = sx_choose(2, "rot"); TimeSeries<T> ts(w); ts.init(); T x[4]; for (uint32_t i = 0; i < rot; i++) ts.feedSeries((T) 7);
  for (uint32_t i = 0; i < w; i++) { x[i] = vals[sx_choose(nv, "v")]; ts.feedSeries(x[i]); }
  double sum = 0, sq = 0, dev = 0; for (uint32_t i = 0; i < w; i++) { sum += (double) x[i]; sq += (double) x[i] * (double) x[i]; } double mean = sum / w; for (uint32_t i = 0; i < w; i++) dev += ((double) x[i] - mean) * ((double) x[i] - mean);
  int order = sx_choose(2, "order"); if (order) { if (w > 1) ts.snr(); ts.stdev(); ts.rms(); }
  sx_assert(near(ts.mean(), mean), "mean"); sx_assert(near(ts.rms(), sqrt(sq / w)), "root mean square"); sx_assert(near(ts.stdev(), sqrt(dev / w)), "standard deviation"); sx_reach("stats");
  if (w > 1 && dev > 0) { sx_assert(near(ts.snr(), mean * mean / (dev / w)), "signal to noise"); sx_reach("snr"); } else if (dev == 0) sx_reach("steady");
  T v2 = vals[0]; ts.feedSeries(v2); sum += (double) v2 - (double) x[0]; sx_assert(near(ts.mean(), sum / w), "mean follows the window");
}
template <class T> static void pack() {
  uint32_t heap0 = sx_heap_bytes(); {
  uint32_t w = 1 + sx_choose(3, "w"), extra = sx_choose(4, "extra"); TimeSeries<T> ts(w); ts.init(); T x[8]; uint32_t n = 0; bool nm = sizeof(T) == 1 && sx_choose(2, "name"), un = nm && sx_choose(2, "units");
  if (nm) ts.name((char*) "abc"); SIUnit u[3] = {(SIUnit) 1, (SIUnit) 2, (SIUnit) 0}; if (un) ts.units(u);
  for (; n < w + extra; n++) { x[n] = 0; sx_bytes(&x[n], n + 1 == w + extra || THOROUGH ? sizeof(T) : 1, "x"); ts.feedSeries(x[n]); }
  StringBuilder out; sx_assert(0 == ts.serialize(&out, TCode::CBOR), "a full series can be packed"); sx_reach("sent");
  C3PValue* v = C3PValue::deserialize(&out, TCode::CBOR); sx_assert(v && v->tcode() == TCode::TIMESERIES && out.length() == 0, "unpacked"); TimeSeriesBase* b = nullptr; sx_assert(0 == v->get_as(&b) && b && b->tcode() == ts.tcode(), "type of an unpacked series");
  TimeSeries<T>* t2 = (TimeSeries<T>*) b; sx_assert(b->windowSize() == w && b->totalSamples() == n && b->windowFull() && 0 == strcmp(b->name(), nm ? "abc" : "") && 0 == strcmp((char*) b->units(), un ? (char*) u : ""), "attributes of an unpacked series");
  T got[3]; 
  sx_assert(0 == t2->copyValues(got, w, false), "its samples"); for (uint32_t i = 0; i < w; i++) sx_assert(got[i] == x[n - w + i], "the samples of an unpacked series, in order"); sx_assert(t2->value() == x[n - 1], "its most-recent sample"); sx_reach("loaded");
  T more = (T) sx_u8("more"); t2->feedSeries(more); sx_assert(0 == t2->copyValues(got, w, false) && got[w - 1] == more && (w == 1 || got[w - 2] == x[n - 1]), "an unpacked series can be continued"); sx_reach("resumed");
  delete v;
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
static void hostile() {
  uint32_t heap0 = sx_heap_bytes(); {
  uint8_t m[96]; uint32_t o = 0; int keys = 1 + sx_choose(THOROUGH ? 3 : 2, "keys"); uint8_t tag = TcodeToInt(TCode::TIMESERIES); static const char* K[] = {"tc", "win", "ttl", "idx", "dat", "n", "u"};
  m[o++] = 0xD9; m[o++] = (uint8_t) (C3P_CBOR_VENDOR_CODE >> 8); m[o++] = tag; m[o++] = 0xA0 | keys; bool used[7] = {};
  for (int i = 0; i < keys; i++) {
    int k = i ? sx_choose(7, "key") : 0; if (used[k]) sx_end(); used[k] = true; uint32_t l = strlen(K[k]); m[o++] = 0x60 | l; memcpy(m + o, K[k], l); o += l;
    switch (sx_choose(7, "kind")) {
      case 0: m[o++] = 0x18; m[o++] = sx_u8("small"); break; case 1: m[o++] = 0x1A; { uint32_t big = sx_choose(2, "big") ? 0xFFFFFFFF : k ? 0x7FFFFFF0 : 3; for (int q = 24; q >= 0; q -= 8) m[o++] = big >> q; } break; case 2: m[o++] = 0x23; break;
      case 3: m[o++] = 0x61; m[o++] = 'q'; break; case 4: m[o++] = 0xFA; m[o++] = 0x40; m[o++] = 0; m[o++] = 0; m[o++] = 0; break; case 5: m[o++] = 0x83; m[o++] = 1; m[o++] = 0x18; m[o++] = 0xF0; m[o++] = 0x20; break; case 6: m[o++] = 0x42; m[o++] = 0; m[o++] = 0xFF; break;
    }
  }
  StringBuilder in; in.concat(m, o); C3PValue* v = C3PValue::deserialize(&in, TCode::CBOR);
  if (v) { TimeSeriesBase* b = nullptr; if (v->tcode() == TCode::TIMESERIES && 0 == v->get_as(&b) && b) { sx_reach("hostile"); sx_assert(b->windowSize() < 0x08000000, "window within memory"); } else sx_reach("refused"); delete v; } else sx_reach("refused");
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
static void arbitrary() {
  uint32_t heap0 = sx_heap_bytes(); {
  static const TCode TC[] = {TCode::UINT8, TCode::INT64, TCode::FLOAT}; uint8_t m[96]; uint32_t o = 0; m[o++] = 0xD9; m[o++] = (uint8_t) (C3P_CBOR_VENDOR_CODE >> 8); m[o++] = TcodeToInt(TCode::TIMESERIES); m[o++] = 0xA5;
  TCode tc = TC[sx_choose(3, "tc")]; uint32_t w = sx_choose(4, "w"), ttl = sx_u32("ttl"), idx = sx_u32("idx"), n = 1 + sx_choose(w == 3 || THOROUGH ? 4 : 2, "n");
  memcpy(m + o, "\x62tc\x18", 4); o += 4; m[o++] = TcodeToInt(tc); memcpy(m + o, "\x63win", 4); o += 4; m[o++] = w; memcpy(m + o, "\x63ttl\x1A", 5); o += 5; for (int q = 24; q >= 0; q -= 8) m[o++] = ttl >> q;
  memcpy(m + o, "\x63idx\x1A", 5); o += 5; for (int q = 24; q >= 0; q -= 8) m[o++] = idx >> q; memcpy(m + o, "\x63" "dat", 4); o += 4; m[o++] = 0x80 | n;
  for (uint32_t i = 0; i < n; i++) switch (!i || THOROUGH ? sx_choose(4, "elem") : 0) { case 0: m[o++] = 0x18; m[o++] = sx_u8("e"); break; case 1: m[o++] = 0x38; m[o++] = sx_u8("e"); break; case 2: m[o++] = 0x61; m[o++] = 'z'; break; case 3: m[o++] = 0xF5; break; }
  StringBuilder in; in.concat(m, o); C3PValue* v = C3PValue::deserialize(&in, TCode::CBOR); sx_assert(v && in.length() == 0, "unpacked whatever the values are"); TimeSeriesBase* b = nullptr; sx_assert(0 == v->get_as(&b) && b, "series");
  sx_assert(b->windowSize() == w && b->initialized() == (w > 0) && b->totalSamples() == ttl, "attributes"); if (tc == TCode::UINT8) sx_assert(((TimeSeries<uint8_t>*) b)->feedSeries((uint8_t) 3) == (w ? (ttl + 1 >= w ? 1 : 0) : -1), "can be fed"); sx_reach("hostile"); delete v;
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() {
  switch (sx_choose(8, "mode")) {
    case 0: { static const int8_t V[] = {-128, -1, 0, 1, 3, 127}; stats<int8_t>(V, 6); break; }
    case 1: { static const uint16_t V[] = {0, 1, 200, 65535}; stats<uint16_t>(V, 4); break; }
    case 2: { static const float V[] = {-2.5f, 0, 1.25f, 1e10f}; stats<float>(V, 4); break; }
    case 3: pack<int8_t>(); break; case 4: pack<uint32_t>(); break; case 5: pack<int64_t>(); break;
    case 6: hostile(); break; case 7: arbitrary(); break;
  }
  return 0;
}

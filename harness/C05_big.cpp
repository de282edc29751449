//@ reach: done
//@ bounds: and strings of 300 fragments of 1 to 3 bytes, and of fragments of 254 to 258 and 70000 bytes, through each kind of operation at any of 7 offsets around a byte's and two bytes' range
#include "sx.h"
#include "StringBuilder.h"
#include "rt_common.h"
static uint8_t ref[80000], tmp[80000]; static int n = 0;
static void check(StringBuilder& sb, const uint8_t* r, int len) {
  sx_assert(sb.length() == len, "length of a long string");
  const int step = (len > 3000) ? 257 : 7;
  if (sb.count() < 2) for (int i = 0; i < len; i += step) sx_assert(sb.byteAt(i) == r[i], "content of a long string");
  if (len) sx_assert(sb.byteAt(len - 1) == r[len - 1], "content of a long string"); sx_assert(sb.byteAt(len) == 0, "nothing past the end of a long string");
  sx_assert(sb.copyToBuffer(tmp, len + 5) == len && 0 == memcmp(tmp, r, len), "content of a long string");
}
int sx_main() {
  sx_budget(300000000);
  uint32_t heap0 = sx_heap_bytes();
  {
    StringBuilder sb; const int shape = sx_choose(4, "shape"); uint8_t mark = sx_u8("mark"); int frags = 0;
    for (int i = 0; i < 75000; i++) ref[i] = (uint8_t) (i * 5 + (i >> 8));
    static const int AT[] = {0, 1, 254, 255, 256, 257, 65536}; const int at = AT[sx_choose(7, "at")]; ref[at] = mark;
    if (shape == 0) { for (int i = 0; i < 300; i++) { sb.concat(ref + n, 1 + i % 3); n += 1 + i % 3; } frags = 300; }
    else if (shape == 1) { for (int i = 254; i < 259; i++) { sb.concat(ref + n, i); n += i; } frags = 5; }
    else if (shape == 2) { sb.concat(ref, 70000); n = 70000; sb.concat(ref + n, 300); n += 300; frags = 2; }
    else { for (int i = 299; i >= 0; i--) { sb.prepend(ref + i * 3, 3); } n = 900; frags = 300; }
    sx_assert(sb.count() == frags, "fragments of a long string"); check(sb, ref, n);
    if (at >= n) return 0;
    switch (sx_choose(8, "op")) {
      case 0: sb.cull(at); check(sb, ref + at, n - at); break;
      case 1: { const int l = (n - at < 300) ? n - at : 300; sb.cull(at, l); check(sb, ref + at, l); } break;
      case 2: { StringBuilder d; d.concatHandoffLimit(&sb, at); check(d, ref, at); check(sb, ref + at, n - at); } break;
      case 3: { StringBuilder d; d.concatLimit(&sb, at); check(d, ref, at); check(sb, ref, n); } break;
      case 4: { const int p = (at < frags) ? at : frags - 1; int off = 0; for (int i = 0; i < p; i++) { int l; sb.position(i, &l); off += l; } int l = 0; uint8_t* x = sb.position(p, &l); sx_assert(x != nullptr && 0 == memcmp(x, ref + off, l) && l > 0, "a fragment of a long string"); sx_assert(sb.maximumFragmentLength() == (shape == 0 ? 3 : shape == 1 ? 258 : shape == 2 ? 70000 : 3), "longest fragment of a long string"); sx_assert(sb.drop_position(p), "dropping from a long string"); memmove(ref + off, ref + off + l, n - off - l); n -= l; sx_assert(sb.count() == frags - 1, "dropping from a long string"); check(sb, ref, n); } break;
      case 5: { sx_assert(0 == memcmp(sb.string(), ref, n), "flattening a long string"); sx_assert(sb.count() == 1, "flattening a long string"); check(sb, ref, n); const int c = at ? at : 2; const int k = (n + c - 1) / c; if (k < 1000) { sx_assert(sb.chunk(c) == k && sb.count() == k, "chunks of a long string"); check(sb, ref, n); } } break;
      case 6: { StringBuilder d; sx_assert(d.concatHandoffPositions(&sb, 0, frags) == frags, "moving all fragments"); sx_assert(sb.isEmpty(), "moving all fragments"); check(d, ref, n); sb.concat(&d); check(sb, ref, n); check(d, ref, n); } break;
      case 7: { uint8_t* raw = (uint8_t*) malloc(at + 1); memcpy(raw, ref, at + 1); StringBuilder d; d.concatHandoff(raw, at + 1); d.prependHandoff(&sb); check(sb, ref, 0); memcpy(ref + n, ref, at + 1 < 75000 - n ? at + 1 : 0); if (n + at + 1 < 75000) check(d, ref, n + at + 1); } break;
    }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

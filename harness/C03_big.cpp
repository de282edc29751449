//@ reach: done
//@ bounds: and capacities 255, 256, 257, 300 and 65537, from any of 6 rotations, with bulk transfers of up to the capacity
#include "sx.h"
#include "RingBuffer.h"
#include "rt_common.h"
static uint8_t src[70000], dst[70000];
template <class T> static void run(const unsigned cap, unsigned start) {
  uint32_t heap0 = sx_heap_bytes();
  {
    RingBuffer<T> rb(cap); T* s = (T*) src; T* d = (T*) dst;
    const unsigned chunk = (cap > 1000) ? cap : 300; for (unsigned i = 0; i < chunk; i++) s[i] = (T) (i * 7 + (i >> 8)); uint8_t m = sx_u8("m"); s[cap - 1] = m; s[0] = (T) (m + 1);
    if (start > cap) start = cap;
    for (unsigned i = 0; i < start; ) { unsigned k = (start - i < chunk) ? start - i : chunk; sx_assert(rb.insert(s, k) == (int) k, "a large ring takes what fits"); sx_assert(rb.get(d, k) == (int) k, "a large ring gives what it has"); i += k; }
    sx_assert(rb.isEmpty() && rb.vacancy() == cap, "a large ring is empty when drained");
    const unsigned part = (start % 3) ? cap - 1 : cap;
    sx_assert(rb.insert(s, part) == (int) part, "a large ring takes what fits"); sx_assert(rb.count() == part && rb.vacancy() == cap - part, "count of a large ring");
    if (part < cap) { sx_assert(rb.insert(s[part]) == 0, "a large ring takes one more"); }
    sx_assert(rb.insert(s[0]) < 0 && rb.count() == cap && rb.vacancy() == 0, "a full large ring takes no more");
    sx_assert(rb.peek() == s[0] && rb.peek(cap - 1) == s[cap - 1] && rb.peek(cap / 2) == s[cap / 2], "peeking into a large ring");
    sx_assert(rb.peek(d, cap) == (int) cap, "peeking at a whole large ring"); for (unsigned i = 0; i < cap; i += (cap > 1000) ? 97 : 1) sx_assert(d[i] == s[i], "peeking at a whole large ring"); sx_assert(d[cap - 1] == s[cap - 1], "peeking at a whole large ring");
    const unsigned drop = cap / 3; sx_assert(rb.cull(drop) == (int) drop, "culling from a large ring"); sx_assert(rb.count() == cap - drop && rb.peek() == s[drop], "culling from a large ring");
    const unsigned k = cap - drop - 1; sx_assert(rb.get(d, k) == (int) k, "draining a large ring"); for (unsigned i = 0; i < k; i += (cap > 1000) ? 97 : 1) sx_assert(d[i] == s[drop + i], "draining a large ring");
    sx_assert(rb.get() == s[cap - 1] && rb.isEmpty(), "the last element of a large ring");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() {
  sx_budget(200000000);
  static const unsigned CAPS[] = {255, 256, 257, 300, 65537}; static const unsigned ST[] = {0, 1, 127, 255, 256, 70000};
  const unsigned cap = CAPS[sx_choose(5, "cap")], st = ST[sx_choose(6, "start")];
  if (cap < 1000 && sx_choose(2, "wide")) run<uint16_t>(cap, st); else run<uint8_t>(cap, st);
  return 0;
}

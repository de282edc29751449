//@ reach: full empty wrapped partial-insert partial-get found notfound
//@ bounds: capacities 1..4, element types uint8_t, uint16_t, uint32_t; every rotation of the ring and every fill level as the starting state, then every sequence of 2 (quick) / 3 (thorough) operations, one more for capacities 1 and 2; all element values and the cull count symbolic
//@ outside: capacity 0; out-of-memory; concurrent use (the class documents no locking)
#include "sx.h"
#include "RingBuffer.h"
#if THOROUGH
#define STEPS 4
#define MAXCAP 4
#else
#define STEPS 3
#define MAXCAP 4
#endif
// Reference: a plain FIFO kept as a flat array with a head and tail that never wrap.
template <class T> static void run(unsigned cap) {
  const int steps = (cap <= 2) ? STEPS : STEPS - 1;
  uint32_t heap0 = sx_heap_bytes();
  {
    RingBuffer<T> rb(cap);
    T ref[64]; unsigned h = 0, t = 0;
    // Any reachable state: rotated by rot, filled with fill arbitrary elements.
    unsigned rot = sx_choose(cap, "rot"), fill = sx_choose(cap + 1, "fill");
    for (unsigned i = 0; i < rot; i++) { sx_assert(rb.insert((T) (i + 1)) == 0, "insert into a ring with room succeeds"); sx_assert(rb.get() == (T) (i + 1), "get returns the oldest element"); }
    for (unsigned i = 0; i < fill; i++) { T v; sx_bytes(&v, sizeof(v), "f"); sx_assert(rb.insert(v) == 0, "insert into a ring with room succeeds"); ref[t++] = v; if (rot + t > cap) sx_reach("wrapped"); }
    for (int s = 0; s < steps; s++) {
      unsigned cnt = t - h;
      switch (sx_choose(9, "op")) {
        case 0: {
          T v; sx_bytes(&v, sizeof(v), "v");
          int r = rb.insert(v);
          if (cnt < cap) { sx_assert(r == 0, "insert into a ring with room succeeds"); ref[t++] = v; }
          else { sx_assert(r < 0, "insert into a full ring is refused"); sx_reach("full"); }
          break; }
        case 1: {
          T v[3]; sx_bytes(v, sizeof(v), "vv");
          unsigned n = sx_choose(4, "n");
          int r = rb.insert(v, n);
          if (n == 0 || cnt >= cap) sx_assert(r < 0, "bulk insert of nothing, or into a full ring, is an error");
          else { unsigned e = (n < cap - cnt) ? n : cap - cnt; if (e < n) sx_reach("partial-insert");
            sx_assert(r == (int) e, "bulk insert takes what fits and says how many");
            for (unsigned i = 0; i < e; i++) ref[t++] = v[i]; }
          break; }
        case 2: {
          T v = rb.get();
          if (cnt) { sx_assert(v == ref[h], "get returns the oldest element"); h++; }
          else { sx_assert(v == 0, "get on an empty ring gives zero"); sx_reach("empty"); }
          break; }
        case 3: {
          T v = rb.peek();
          sx_assert(v == (cnt ? ref[h] : (T) 0), "peek returns the oldest element");
          break; }
        case 4: {
          T b[4] = {7, 7, 7, 7};
          unsigned n = sx_choose(4, "gn");
          int r = rb.get(b, n);
          unsigned e = (n < cnt) ? n : cnt;
          if (n == 0) sx_assert(r < 0, "bulk get of nothing is an error");
          else {
            if (e < n) sx_reach("partial-get");
            sx_assert(r == (int) e, "bulk get reports how many were taken");
            for (unsigned i = 0; i < 4; i++) sx_assert(b[i] == ((i < e) ? ref[h + i] : (T) 7), "bulk get gives the oldest elements in order and writes nothing else");
            h += e;
          }
          break; }
        case 5: {
          T b[4] = {7, 7, 7, 7};
          unsigned n = 1 + sx_choose(3, "pn");
          int r = rb.peek(b, n);
          unsigned e = (n < cnt) ? n : cnt;
          sx_assert(r == (int) e, "bulk peek reports how many were copied");
          for (unsigned i = 0; i < 4; i++) sx_assert(b[i] == ((i < e) ? ref[h + i] : (T) 7), "bulk peek copies the oldest elements in order and writes nothing else");
          break; }
        case 6: {
          unsigned n = sx_u32("cull");
          int r = rb.cull(n);
          if (sx_branch(n == 0)) sx_assert(r < 0, "cull of nothing is an error");
          else {
            uint32_t e = sx_concretize((n < cnt) ? n : cnt);
            sx_assert(r == (int) e, "cull reports how many were dropped");
            h += e;
          }
          break; }
        case 7: {
          T v; sx_bytes(&v, sizeof(v), "q");
          bool e = false; for (unsigned i = h; i < t; i++) e |= (ref[i] == v);
          if (sx_branch(sx_choose(2, "absent"))) {
            int r = rb.insertIfAbsent(v);
            if (sx_branch(e)) { sx_assert(r == -2, "insertIfAbsent refuses an element that is present"); }
            else if (cnt < cap) { sx_assert(r == 0, "insertIfAbsent adds an absent element"); ref[t++] = v; }
            else sx_assert(r == -1, "insertIfAbsent into a full ring is refused");
          }
          else {
            bool r = rb.contains(v);
            sx_assert(r == e, "contains is true exactly for elements that are queued");
            if (sx_branch(r)) sx_reach("found"); else sx_reach("notfound");
          }
          break; }
        case 8: rb.clear(); h = t; break;
      }
      cnt = t - h;
      sx_assert(rb.count() == cnt, "count");
      sx_assert(rb.isEmpty() == (cnt == 0), "isEmpty");
      sx_assert(rb.vacancy() == cap - cnt, "vacancy");
      sx_assert(rb.capacity() == cap, "capacity");
    }
    // The content left over.
    for (unsigned i = h; i < t; i++) sx_assert(rb.peek(i - h) == ref[i], "indexed peek gives the i-th oldest element");
    for (unsigned i = h; i < t; i++) sx_assert(rb.get() == ref[i], "draining gives what was inserted, in order");
    sx_assert(rb.isEmpty(), "empty after draining");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() {
  unsigned cap = 1 + sx_choose(MAXCAP, "cap");
  switch (sx_choose(3, "type")) {
    case 0: run<uint8_t>(cap); break;
    case 1: run<uint16_t>(cap); break;
    case 2: run<uint32_t>(cap); break;
  }
  return 0;
}

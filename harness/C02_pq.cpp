//@ reach: dup-refused removed-dup promoted demoted recycled outside
//@ bounds: queues of 0..3 (quick) / 0..4 (thorough) arbitrary non-null references with arbitrary 32-bit priorities (except INT_MAX and INT_MIN where a priority is stepped), then every sequence of 2 operations; values, priorities and positions fully symbolic
//@ outside: null payloads; out-of-memory; the pthread/FreeRTOS mutexed builds
#include "sx.h"
#include "PriorityQueue.h"
#include "rt_common.h"
typedef uint8_t* P;
#define FILL  (THOROUGH ? 4 : 3)
static P anyp() { uint32_t v = sx_u32("p"); sx_assume(v != 0); return (P)(uintptr_t) v; }
static P ref[16]; static int pri[16]; static int n = 0;
static int find(P v) { for (int i = 0; i < n; i++) if (sx_branch(ref[i] == v)) return i; return -1; }
static int place(P v, int p) { int k = 0; while (k < n && sx_branch(pri[k] >= p)) k++; for (int i = n; i > k; i--) { ref[i] = ref[i - 1]; pri[i] = pri[i - 1]; } ref[k] = v; pri[k] = p; n++; return k; }
static void del(int k) { for (int i = k + 1; i < n; i++) { ref[i - 1] = ref[i]; pri[i - 1] = pri[i]; } n--; }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    PriorityQueue<P> q;
    int fill = sx_choose(FILL + 1, "fill");
    for (int i = 0; i < fill; i++) { P v = anyp(); int p = (int) sx_u32("pri"); int r = q.insert(v, p); sx_assert(r == place(v, p), "insert goes behind everything of equal or higher priority, and returns the position"); }
    for (int s = 0; s < 2; s++) {
      switch (sx_choose(15, "op")) {
        case 0: { P v = anyp(); int p = (int) sx_u32("pri"); int r = q.insert(v, p); sx_assert(r == place(v, p), "insert goes behind everything of equal or higher priority, and returns the position"); break; }
        case 1: { P v = anyp(); int r = q.insert(v); sx_assert(r == place(v, 0), "insert without priority uses priority 0"); break; }
        case 2: { P v = anyp(); int p = (int) sx_u32("pri"); int r = q.insertIfAbsent(v, p); int k = find(v);
          if (k >= 0) { sx_assert(r == -1, "insertIfAbsent refuses an element that is present"); sx_reach("dup-refused"); }
          else sx_assert(r == place(v, p), "insertIfAbsent inserts like insert, and returns the position"); break; }
        case 3: { P v = anyp(); int r = q.insertIfAbsent(v); int k = find(v);
          if (k >= 0) sx_assert(r == -1, "insertIfAbsent refuses an element that is present");
          else sx_assert(r == place(v, 0), "insertIfAbsent without priority uses priority 0"); break; }
        case 4: { P r = q.dequeue(); if (n) { sx_assert(r == ref[0], "dequeue gives the oldest of the highest priority"); del(0); } else sx_assert(r == nullptr, "dequeue of an empty queue gives null"); break; }
        case 5: { P r = q.recycle(); sx_assert(r == (n ? ref[0] : nullptr), "recycle gives the head");
          if (n > 1) { P v = ref[0]; int p = pri[n - 1]; del(0); ref[n] = v; pri[n] = p; n++; sx_reach("recycled"); } break; }
        case 6: { int pos = (int) sx_u32("pos"); bool r = q.remove(pos);
          if (sx_branch((pos >= 0) & (pos < n))) { pos = sx_concretize(pos); sx_assert(r, "positional remove inside the queue"); del(pos); }
          else { sx_assert(!r, "positional remove outside the queue"); sx_reach("outside"); } break; }
        case 7: { P v = anyp(); bool r = q.remove(v); int c = 0; for (int i = 0; i < n; ) { if (sx_branch(ref[i] == v)) { del(i); c++; } else i++; }
          sx_assert(r == (c > 0), "value remove reports whether something was removed"); if (c > 1) sx_reach("removed-dup"); break; }
        case 8: { int r = q.clear(); sx_assert(r == n, "clear reports how many were purged"); n = 0; break; }
        case 9: sx_assert(q.get() == (n ? ref[0] : nullptr), "get gives the head"); break;
        case 10: { int p = (int) sx_u32("p"); P e = nullptr; for (int i = n - 1; i >= 0; i--) if (pri[i] == p) e = ref[i]; sx_assert(q.getByPriority(p) == e, "getByPriority gives the first of that priority"); break; }
        case 11: { P v = anyp(); int k = find(v); sx_assert(q.contains(v) == (k >= 0), "contains"); sx_assert(q.getPosition(v) == k, "getPosition"); sx_assert(q.getPriority(v) == (k >= 0 ? pri[k] : -1), "getPriority"); break; }
        case 12: { P v = anyp(); int k = find(v); if (k >= 0) sx_assume(pri[k] != 0x7fffffff);
          bool r = q.incrementPriority(v); sx_assert(r == (k >= 0), "incrementPriority reports whether the element exists");
          if (k >= 0) { int p = pri[k] + 1; del(k); int z = 0; while (z < n && ((z < k) ? sx_branch(pri[z] >= p) : 0)) z++;
            if (z < k) sx_reach("promoted");
            for (int i = n; i > z; i--) { ref[i] = ref[i - 1]; pri[i] = pri[i - 1]; } ref[z] = v; pri[z] = p; n++; }
          break; }
        case 13: { P v = anyp(); int k = find(v); if (k >= 0) sx_assume(pri[k] != (int) 0x80000000);
          bool r = q.decrementPriority(v); sx_assert(r == (k >= 0), "decrementPriority reports whether the element exists");
          if (k >= 0) { int p = pri[k] - 1; del(k); int z = k; while (z < n && sx_branch(pri[z] > p)) z++;
            if (z > k) sx_reach("demoted");
            for (int i = n; i > z; i--) { ref[i] = ref[i - 1]; pri[i] = pri[i - 1]; } ref[z] = v; pri[z] = p; n++; }
          break; }
        case 14: { int pos = (int) sx_u32("gp"); P e = nullptr; int ep = -1; for (int i = 0; i < n; i++) if (i == pos) { e = ref[i]; ep = pri[i]; }
          sx_assert(q.get(pos) == e, "positional get"); sx_assert(q.getPriority(pos) == ep, "positional getPriority"); break; }
      }
      sx_assert(q.size() == n, "size");
      sx_assert(q.hasNext() == (n > 0), "hasNext");
      for (int i = 0; i < n; i++) { sx_assert(q.get(i) == ref[i], "order: priority first, then first come first served"); sx_assert(q.getPriority(i) == pri[i], "each element keeps its priority"); if (i) sx_assert(pri[i] <= pri[i - 1], "priorities never increase along the queue"); }
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

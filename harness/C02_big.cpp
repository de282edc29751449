//@ reach: done
//@ bounds: and queues of 300 references of 1, 2 or 300 priorities, with an operation at any of 8 places
#include "sx.h"
#include "PriorityQueue.h"
#include "rt_common.h"
typedef uint8_t* P;
#define N 300
static P ref[N + 4]; static int pri[N + 4]; static int n = 0;
static int place(P v, int p) { int k = 0; while (k < n && pri[k] >= p) k++; for (int i = n; i > k; i--) { ref[i] = ref[i - 1]; pri[i] = pri[i - 1]; } ref[k] = v; pri[k] = p; n++; return k; }
static void del(int k) { for (int i = k + 1; i < n; i++) { ref[i - 1] = ref[i]; pri[i - 1] = pri[i]; } n--; }
static void check(PriorityQueue<P>& l) {
  sx_assert(l.size() == n, "size of a long queue");
  for (int i = 0; i < n; i++) { sx_assert(l.get(i) == ref[i], "order of a long queue"); if (0 == (i & 15)) sx_assert(l.getPriority(i) == pri[i], "priorities of a long queue"); }
  sx_assert(l.get(n) == nullptr, "nothing past the end of a long queue");
}
int sx_main() {
  sx_budget(200000000);
  uint32_t heap0 = sx_heap_bytes();
  {
    PriorityQueue<P> q; const uint32_t mark = sx_u32("mark"); sx_assume(mark > 0x10000);
    static const int AT[] = {0, 126, 127, 128, 254, 255, 256, 299}; const int at = AT[sx_choose(8, "at")]; const int kind = sx_choose(4, "kind");
    for (int i = 0; i < N; i++) {
      P v = (P)(uintptr_t) ((i == at) ? mark : (uint32_t) (i + 1) * 4); int p = (kind == 0) ? 5 : (kind == 1) ? i & 1 : (kind == 2) ? N - i : i * 3 - 400;
      sx_assert(q.insert(v, p) == place(v, p), "position of what was inserted into a long queue");
    }
    check(q);
    P m = (P)(uintptr_t) mark; int k = 0; while (ref[k] != m) k++;
    sx_assert(q.getPosition(m) == k && q.getPriority(m) == pri[k] && q.contains(m), "what a long queue says about an element");
    sx_assert(q.insertIfAbsent(m, 1) == -1, "a long queue refuses what it has");
    switch (sx_choose(5, "op")) {
      case 0: sx_assert(q.remove(m), "removal by value from a long queue"); del(k); break;
      case 1: sx_assert(q.remove(k), "removal by position from a long queue"); del(k); break;
      case 2: { int p = pri[k] + 1; sx_assert(q.incrementPriority(m), "promotion in a long queue"); del(k); int z = 0; while (z < k && pri[z] >= p) z++; for (int i = n; i > z; i--) { ref[i] = ref[i - 1]; pri[i] = pri[i - 1]; } ref[z] = m; pri[z] = p; n++; break; }
      case 3: { P v = ref[0]; int p = pri[n - 1]; sx_assert(q.recycle() == v, "recycling of a long queue"); del(0); ref[n] = v; pri[n] = p; n++; break; }
      case 4: for (int i = 0; i < 30; i++) { sx_assert(q.dequeue() == ref[0], "the head of a long queue"); del(0); } break;
    }
    check(q);
    if (sx_choose(2, "clear")) sx_assert(q.clear() == n, "a long queue is purged");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

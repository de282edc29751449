//@ reach: done
//@ bounds: and lists of 300 references, with an operation at any of 12 places
//@ outside:
#include "sx.h"
#include "LightLinkedList.h"
#include "rt_common.h"
typedef uint8_t* P;
#define N 300
static P ref[N + 4]; static int n = 0;
static void check(LinkedList<P>& l) {
  sx_assert(l.size() == n, "size of a long list");
  for (int i = 0; i < n; i++) sx_assert(l.get(i) == ref[i], "content and order of a long list");
  sx_assert(l.get(n) == nullptr, "nothing past the end of a long list");
}
int sx_main() {
  sx_budget(100000000);
  uint32_t heap0 = sx_heap_bytes();
  {
    LinkedList<P> l; const uint32_t mark = sx_u32("mark"); sx_assume(mark > 0x10000);
    static const int AT[] = {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 298, 299};
    const int at = AT[sx_choose(12, "at")]; const bool heads = sx_choose(2, "heads");
    for (int i = 0; i < N; i++) {
      P v = (P)(uintptr_t) (((heads ? N - 1 - i : i) == at) ? mark : (i + 1) * 4); int r = heads ? l.insertAtHead(v) : l.insert(v);
      sx_assert(r == (heads ? 0 : i), "position of what was inserted into a long list"); ref[heads ? N - 1 - i : i] = v; n++;
    }
    check(l);
    sx_assert(l.contains((P)(uintptr_t) mark), "a long list contains what was put into it");
    sx_assert(!l.contains((P)(uintptr_t) 3), "a long list does not contain anything else");
    if (sx_choose(2, "byvalue")) sx_assert(l.remove((P)(uintptr_t) mark), "removal by value from a long list");
    else sx_assert(l.remove(at) == (P)(uintptr_t) mark, "removal by position from a long list");
    for (int i = at + 1; i < n; i++) ref[i - 1] = ref[i]; n--;
    check(l);
    for (int k = 0; k < 20; k++) { sx_assert(l.remove() == ref[0], "the head of a long list"); for (int i = 1; i < n; i++) ref[i - 1] = ref[i]; n--; }
    check(l);
    if (sx_choose(2, "clear")) sx_assert(l.clear() == n, "a long list is purged");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

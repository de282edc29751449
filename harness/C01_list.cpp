//@ reach: removed-middle removed-dup removed-none empty-list outside
//@ bounds: lists of 0..4 (quick) / 0..5 (thorough) arbitrary non-null references (duplicates included), built at either end; then every sequence of 2 (quick) / 3 (thorough) operations; references and positions fully symbolic
//@ outside: null payloads; out-of-memory
#include "sx.h"
#include "LightLinkedList.h"
#include "rt_common.h"
typedef uint8_t* P;
#define STEPS (THOROUGH ? 3 : 2)
#define FILL  (THOROUGH ? 5 : 4)
static P anyp() { uint32_t v = sx_u32("p"); sx_assume(v != 0); return (P)(uintptr_t) v; }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    LinkedList<P> l; P ref[16]; int n = 0;
    int fill = sx_choose(FILL + 1, "fill");
    for (int i = 0; i < fill; i++) {
      P v = anyp();
      int r = l.insert(v);
      sx_assert(r == n, "insert appends, and returns the position");
      ref[n++] = v;
    }
    for (int s = 0; s < STEPS; s++) {
      switch (sx_choose(9, "op")) {
        case 0: { P v = anyp(); int r = l.insert(v); sx_assert(r == n, "insert appends, and returns the position"); ref[n++] = v; break; }
        case 1: { P v = anyp(); int r = l.insertAtHead(v); sx_assert(r == 0, "insertAtHead returns position 0");
          for (int i = n; i > 0; i--) ref[i] = ref[i - 1]; ref[0] = v; n++; break; }
        case 2: { P r = l.remove();
          if (n == 0) { sx_assert(r == nullptr, "remove from an empty list gives null"); sx_reach("empty-list"); }
          else { sx_assert(r == ref[0], "remove gives the head"); for (int i = 1; i < n; i++) ref[i - 1] = ref[i]; n--; }
          break; }
        case 3: { int pos = (int) sx_u32("pos");
          P r = l.remove(pos);
          if (sx_branch((pos >= 0) & (pos < n))) { pos = (int) sx_concretize(pos);
            sx_assert(r == ref[pos], "positional remove gives the element at that position"); if (pos > 0 && pos < n - 1) sx_reach("removed-middle");
            for (int i = pos + 1; i < n; i++) ref[i - 1] = ref[i]; n--; }
          else { sx_assert(r == nullptr, "positional remove outside the list gives null"); sx_reach("outside"); }
          break; }
        case 4: { P v = anyp(); bool r = l.remove(v); int k = 0;
          for (int i = 0; i < n; i++) { if (!sx_branch(ref[i] == v)) ref[k++] = ref[i]; }
          sx_assert(r == (k != n), "value remove reports whether something was removed");
          if (n - k > 1) sx_reach("removed-dup"); if (n == k) sx_reach("removed-none");
          n = k; break; }
        case 5: sx_assert(l.get() == (n ? ref[0] : nullptr), "get gives the head, or null"); break;
        case 6: { int pos = (int) sx_u32("gpos"); P r = l.get(pos); P e = nullptr;
          for (int i = 0; i < n; i++) if (i == pos) e = ref[i];
          sx_assert(r == e, "positional get gives the element at that position, or null"); break; }
        case 7: { P v = anyp(); bool e = false; for (int i = 0; i < n; i++) e |= (ref[i] == v);
          sx_assert(l.contains(v) == e, "contains is true exactly for elements in the list"); break; }
        case 8: { int r = l.clear(); sx_assert(r == n, "clear reports how many elements were purged"); n = 0; break; }
      }
      sx_assert(l.size() == n, "size");
      sx_assert(l.hasNext() == (n > 0), "hasNext");
      for (int i = 0; i < n; i++) sx_assert(l.get(i) == ref[i], "content and order");
      sx_assert(l.get(n) == nullptr, "nothing past the end");
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

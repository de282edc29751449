//@ reach: done
//@ bounds: and machines of capacity 20 and 200 with routes through up to 40 different states, refilled while they are traversed, refusals at any third step
#include "plat.h"
#include "rt_common.h"
#include "FiniteStateMachine.h"
enum class St : uint8_t { S0 = 0, LAST = 255 };
static EnumDef<St>* DEFS; static char NM[40][4]; static uint8_t code(int i) { return i * 6 + 1; }
struct M : public StateMachine<St> {
  int entries = 0; St entering; int8_t accept = 0; M(const EnumDefList<St>* l, unsigned d) : StateMachine<St>("fsm", l, (St) code(0), d) {}
  int8_t _fsm_poll() override { return 0; } int8_t _fsm_set_position(St s) override { entries++; entering = s; return accept; }
  using StateMachine<St>::_fsm_append_state; using StateMachine<St>::_fsm_append_route; using StateMachine<St>::_fsm_set_route; using StateMachine<St>::_fsm_prepend_state; using StateMachine<St>::_fsm_advance; using StateMachine<St>::_fsm_state_planned; using StateMachine<St>::_fsm_pos_next; using StateMachine<St>::_fsm_is_stable;
};
int sx_main() {
  sx_budget(300000000); plat_us_step = 0; plat_ms_direct = 1; plat_ms = 5; uint32_t heap0 = sx_heap_bytes(); DEFS = (EnumDef<St>*) malloc(40 * sizeof(EnumDef<St>)); for (int i = 0; i < 40; i++) { NM[i][0] = 'A' + i / 10; NM[i][1] = '0' + i % 10; NM[i][2] = 0; EnumDef<St> t((St) code(i), NM[i]); memcpy((void*) (DEFS + i), &t, sizeof(t)); }
  {
    EnumDefList<St> L(DEFS, 40, "L"); const int cap = sx_choose(2, "cap") ? 200 : 20; M m(&L, cap); uint8_t w[200]; int n = 0, cur = code(0), prior = code(0); const int fill = sx_choose(4, "fill"); int next = 1; static const int REF[] = {0, 1, 3}; const int ref = REF[sx_choose(3, "refuse")];
    for (int round = 0; round < 4; round++) {
      int want = round == 0 ? cap : 13;
      if (fill == 3) { uint8_t v[12]; for (int i = 0; i < 12; i++) v[i] = code((next + i) % 40); int r = round ? m._fsm_append_route(12, (int) v[0], (int) v[1], (int) v[2], (int) v[3], (int) v[4], (int) v[5], (int) v[6], (int) v[7], (int) v[8], (int) v[9], (int) v[10], (int) v[11]) : m._fsm_set_route(12, (int) v[0], (int) v[1], (int) v[2], (int) v[3], (int) v[4], (int) v[5], (int) v[6], (int) v[7], (int) v[8], (int) v[9], (int) v[10], (int) v[11]); int t = cap - n < 12 ? cap - n : 12; sx_assert(t ? r == 0 : r < 0, "a valid route is taken"); for (int i = 0; i < t; i++) w[n++] = v[i]; next += 12; }
      else for (int i = 0; i < want; i++) { uint8_t c = code(next++ % 40); bool pre = fill == 1 || (fill == 2 && i % 3 == 1); int r = pre ? m._fsm_prepend_state((St) c) : m._fsm_append_state((St) c); if (n == cap) { sx_assert(r == -2, "a full route is left as it was"); continue; } sx_assert(r == 0, "a valid state is taken"); if (pre) { memmove(w + 1, w, n); w[0] = c; } else w[n] = c; n++; }
      for (int i = 0; i < n; i++) sx_assert(m._fsm_state_planned((St) w[i]), "planned states are known"); int go = round == 3 ? n : round == 2 ? n / 2 : 7; if (go > n) go = n;
      for (int i = 0; i < go; i++) { if (ref && i % 3 == ref - 1) { m.accept = (int8_t) sx_u8("accept"); sx_assume(m.accept != 0); int e = m.entries; sx_assert(m._fsm_advance() != 0 && m.entries == e + 1 && (uint8_t) m.currentState() == cur, "a refused entry fails"); m.accept = 0; } sx_assert((uint8_t) m._fsm_pos_next() == w[0], "the next state is known"); sx_assert(m._fsm_advance() == 0 && (uint8_t) m.entering == w[0], "the route is traversed in order"); prior = cur; cur = w[0]; n--; memmove(w, w + 1, n); sx_assert((uint8_t) m.currentState() == cur && (uint8_t) m.priorState() == prior && m._fsm_is_stable() == (n == 0), "the machine is in the state it entered last, and knows the one before"); }
      for (int k = 0; k < 40; k++) { bool in = false; for (int i = 0; i < n; i++) in |= w[i] == code(k); sx_assert(m._fsm_state_planned((St) code(k)) == in, "planned states are known"); }
    }
    sx_reach("done");
  }
  free(DEFS); sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

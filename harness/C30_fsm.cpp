//@ reach: advanced refused stable invalid_state truncated prepended appended route_cleared rejected lockout slowdown longer reset marked catchall console wrapped
//@ bounds: routes of up to 3 states, every state code at one of them, into a machine of capacity 3 (and of 1); every acceptance of a state entry; every sequence of 4 (capacity 1: 3; thorough 5) operations; every start of the clock, every slowdown and lockout below 2^30
//@ outside: enums wider than a byte (documented); changing the route while a state is entered; whether a reset machine still waits
#include "plat.h"
#include "rt_common.h"
#include "FiniteStateMachine.h"
enum class St : uint8_t { A = 0, B = 7, C = 200, BAD = 3, ANY = 255 };
static const EnumDef<St> DEFS[] = { {St::A, "A"}, {St::B, "B"}, {St::C, "C"}, {St::BAD, "BAD", ENUM_WRAPPER_FLAG_IS_INVALID}, {St::ANY, "ANY", ENUM_WRAPPER_FLAG_CATCHALL} };
static const EnumDefList<St> LIST(DEFS, 5, "L");
struct M : public StateMachine<St> {
  int entries = 0; St entering; int8_t accept = 0; bool lock = false; uint32_t lockfor = 0;
  M(unsigned d) : StateMachine<St>("fsm", &LIST, St::B, d) {}
  int8_t _fsm_poll() override { return 0; }
  int8_t _fsm_set_position(St s) override { entries++; entering = s; if (lock) _fsm_lockout(lockfor); return accept; }
  using StateMachine<St>::_fsm_set_route; using StateMachine<St>::_fsm_append_route; using StateMachine<St>::_fsm_append_state; using StateMachine<St>::_fsm_prepend_state; using StateMachine<St>::_fsm_advance; using StateMachine<St>::_fsm_reset; using StateMachine<St>::_fsm_mark_current_state; using StateMachine<St>::_fsm_state_planned; using StateMachine<St>::_fsm_lockout; using StateMachine<St>::_fsm_is_waiting; using StateMachine<St>::_fsm_is_next_pos; using StateMachine<St>::_fsm_pos_next; using StateMachine<St>::_fsm_is_stable; using StateMachine<St>::_fsm_slowdown;
};
static bool ok(uint8_t& v) { if (sx_branch(v == 0)) { v = 0; return true; } if (sx_branch(v == 200)) { v = 200; return true; } if (sx_branch(v == 255)) { v = 255; sx_reach("catchall"); return true; } if (sx_branch(v == 7)) { v = 7; return true; } return false; }
int sx_main() {
  plat_us_step = 0; plat_ms_direct = 1; plat_ms = sx_u32("now");
  int cap = sx_choose(2, "cap") ? 3 : 1; uint8_t w[4]; int n = 0; uint8_t cur = 7, prior = 7; uint32_t heap0 = sx_heap_bytes();
  {
    M m(cap);
    bool timed = sx_choose(2, "part");
    if (!timed) for (int k = 0; k < (THOROUGH ? 5 : cap == 1 ? 3 : 4); k++) {
      switch (sx_choose(5, "op")) {
        case 0: { m.accept = (int8_t) sx_u8("accept"); int e0 = m.entries; bool acc = sx_branch(m.accept == 0); int r = m._fsm_advance(); if (n == 0) { sx_assert(r != 0 && m.entries == e0, "a stable machine does not move"); sx_reach("stable"); break; } sx_assert(m.entries == e0 + 1 && (uint8_t) m.entering == w[0], "the next state of the route is entered"); if (acc) { sx_assert(r == 0, "an accepted entry succeeds"); prior = cur; cur = w[0]; n--; for (int i = 0; i < n; i++) w[i] = w[i + 1]; sx_reach("advanced"); } else { sx_assert(r != 0, "a refused entry fails"); sx_reach("refused"); } } break;
        case 1: { // a route, set or appended
          bool app = sx_choose(2, "append"); int c = k == 0 ? sx_choose(4, "count") : 2; uint8_t v[3] = {7, 200, 0}; int free_at = c ? (k == 0 ? sx_choose(c, "free state") : k % c) : 0; v[free_at] = sx_u8("state"); int take = app ? cap - n : cap; if (take > c) take = c; bool valid = true; if (free_at < take) valid = ok(v[free_at]);
          int r = app ? m._fsm_append_route(c, (int) v[0], (int) v[1], (int) v[2]) : m._fsm_set_route(c, (int) v[0], (int) v[1], (int) v[2]);
          if (take <= 0) { sx_assert(r == -1, "an empty route is refused"); break; } if (!valid) { sx_assert(r == -2, "a route through states that do not exist is refused"); sx_reach("rejected"); break; }
          sx_assert(r == 0, "a valid route is taken"); if (c > take) sx_reach("truncated"); if (!app) { if (n) sx_reach("route_cleared"); n = 0; } for (int i = 0; i < take; i++) w[n++] = v[i]; 
        } break;
        case 2: { uint8_t v = sx_u8("state"); bool valid = ok(v), pre = sx_choose(2, "prepend"); int r = pre ? m._fsm_prepend_state((St) v) : m._fsm_append_state((St) v); if (!valid) { sx_assert(r == -1, "a state that does not exist is refused"); sx_reach("invalid_state"); break; } if (n == cap) { sx_assert(r == -2, "a full route is left as it was"); break; } sx_assert(r == 0, "a valid state is taken"); if (pre) { for (int i = n; i > 0; i--) w[i] = w[i - 1]; w[0] = v; n++; if (n > 1) sx_reach("prepended"); } else { w[n++] = v; sx_reach("appended"); } } break;
        case 3: { m._fsm_reset(St::C); prior = cur; cur = 200; n = 0; sx_reach("reset"); } break;
        default: m._fsm_mark_current_state(St::A); prior = cur; cur = 0; sx_reach("marked"); break;
      }
      sx_assert((uint8_t) m.currentState() == cur && (uint8_t) m.priorState() == prior, "the machine is in the state it entered last, and knows the one before");
      sx_assert(m._fsm_is_stable() == (n == 0), "a machine is stable when its route is done"); if (n) { sx_assert((uint8_t) m._fsm_pos_next() == w[0] && m._fsm_is_next_pos((St) w[0]), "the next state is known"); for (int i = 0; i < n; i++) sx_assert(m._fsm_state_planned((St) w[i]), "planned states are known"); } else sx_assert(!m._fsm_is_next_pos(St::A) && !m._fsm_state_planned(St::A), "a stable machine plans nothing");
    }
    while (n > 0 && !timed) { m.accept = 0; sx_assert(m._fsm_advance() == 0 && (uint8_t) m.currentState() == w[0], "the route is traversed in order"); n--; for (int i = 0; i < n; i++) w[i] = w[i + 1]; }
    if (timed) {
      m._fsm_append_state(St::A); uint32_t slow = sx_u32("slow"), lk = sx_u32("lock"), el = sx_u32("elapsed"); sx_assume(slow < 0x40000000u && lk < 0x40000000u && el < 0x80000000u); bool lock = m.lock = sx_choose(2, "lock"); m.lockfor = lk; bool viacon = sx_choose(2, "console");
      if (viacon) { StringBuilder a("slowdown"), out; m.fsm_console_handler(&out, &a); m._fsm_slowdown(slow); sx_reach("console"); } else m._fsm_slowdown(slow);
      sx_assert(!m._fsm_is_waiting(), "a new machine is not locked"); m.accept = 0; sx_assert(m._fsm_advance() == 0, "a valid state is entered"); uint32_t until = slow; if (slow == 0 ? lock : (lock && sx_branch(lk > slow))) { until = lk; if (sx_branch(slow > 0)) sx_reach("longer"); }
      uint32_t b = (uint32_t) plat_ms; plat_ms += el; if (sx_branch((uint32_t) plat_ms < b)) sx_reach("wrapped"); bool waiting = sx_branch(el < until); if (waiting) sx_reach(lock ? "lockout" : "slowdown"); sx_assert(m._fsm_is_waiting() == waiting, "after a transition the machine waits as long as the longer of its slowdown and its lockout"); sx_assert(m._fsm_lockout() == (waiting ? until - el : 0), "the remaining wait is known");
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

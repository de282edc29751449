//@ reach: dispatched passed failed retried chained diamond fulfilled completed unrequested cyclic reset again partial
//@ bounds: 3 steps with 8 shapes of dependency (chain, fork, diamond, cycle, upon a step that is not listed), in 3 orders of listing; every result of every dispatch and every poll; a request, and 5 (thorough 6) polls, after the first of which another request or a reset takes the place of any; low and high flags
//@ outside: more than 3 steps; steps with several flag bits; resetting a step without the steps that depend upon it; all_steps_dispatched(), which tells what is requested
#include "sx.h"
#include "rt_common.h"
#include "AsyncSequencer.h"
static int disp[3], polls[3], K[3]; static AsyncSequencer* seq; static uint32_t F[3], D[3], U, REQ, RUNN, COMP, PASS; static bool self_reset;
static int outcome(const char* n) { int32_t v = (int32_t) sx_u32(n); if (sx_branch(v == 1)) return 1; if (sx_branch(v == 0)) { sx_reach("retried"); return 0; } return v; }
static int last_d[3], last_p[3];
static int do_dispatch(int i) { disp[i]++; sx_assert(D[i] == (D[i] & PASS), "a step is dispatched when all that it depends on has passed"); sx_assert(REQ & F[i], "only what was requested is dispatched"); sx_assert(!(RUNN & F[i]) && !(COMP & F[i]), "a step is dispatched once"); int r = outcome("dispatch"); last_d[i] = r; if (r == 1) { RUNN |= F[i]; sx_reach("dispatched"); if (D[i]) sx_reach("chained"); } else if (r != 0) { COMP |= F[i]; sx_reach("failed"); } return r; }
static int do_poll(int i) { polls[i]++; sx_assert((RUNN & F[i]) && !(COMP & F[i]), "only what runs is polled"); int r = outcome("poll"); last_p[i] = r; if (r == 1) { RUNN &= ~F[i]; COMP |= F[i]; PASS |= F[i]; sx_reach("passed"); } else if (r != 0) { RUNN &= ~F[i]; COMP |= F[i]; sx_reach("failed"); } return r; }
static uint32_t closure(uint32_t m) { uint32_t r = 0; for (int i = 0; i < 3; i++) if (m & F[i]) r |= F[i]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) if (r & F[i]) for (int j = 0; j < 3; j++) if (D[i] & F[j]) r |= F[j]; return r; }
static void check() {
  uint32_t q, rb, rn, c, p; seq->getState(&q, &rb, &rn, &c, &p);
  sx_assert(q == REQ, "a request covers all that it depends on"); sx_assert(rn == RUNN && c == COMP && p == PASS, "the state of each step is what became of it");
  sx_assert((rb & ~REQ) == 0, "only what was requested can run"); for (int i = 0; i < 3; i++) if (rb & F[i]) sx_assert(D[i] == (D[i] & PASS), "a step can run when all that it depends on has passed");
  sx_assert(seq->request_fulfilled() == (REQ == (REQ & PASS)) && seq->request_completed() == (REQ == (REQ & COMP)), "a request is fulfilled when all of it has passed"); sx_assert(seq->steps_running() == (RUNN != 0), "steps run");
  for (int m = 1; m < 8; m++) { uint32_t M = (m & 1 ? F[0] : 0) | (m & 2 ? F[1] : 0) | (m & 4 ? F[2] : 0); sx_assert(seq->all_steps_have_run(M) == (M == (M & COMP)) && seq->all_steps_have_passed(M) == (M == (M & PASS)) && seq->all_steps_still_running(M) == (M == (M & RUNN)), "a set of steps has run, or passed, or runs, when each of it does"); }
  sx_assert(seq->failed_steps(false) == (COMP & ~PASS), "what completed without passing failed"); sx_assert((seq->failed_steps(true) & ~(rb & ~PASS)) == 0, "running steps have not passed yet");
  sx_assert(seq->all_steps_have_run() == (rb == (rb & COMP)) && seq->all_steps_have_passed() == (rb == (rb & PASS)), "all runnable steps");
}
int sx_main() {
  int order = sx_choose(3, "list order"); static const int O[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}; int bit = order == 1; for (int i = 0; i < 3; i++) F[i] = (bit ? 0x20000000u : 1u) << i; U = F[0] | F[1] | F[2]; REQ = RUNN = COMP = PASS = 0;
  int deps = sx_choose(8, "deps"); D[0] = D[1] = D[2] = 0;
  switch (deps) { case 0: break; case 1: D[1] = F[0]; break; case 2: D[1] = F[0]; D[2] = F[1]; break; case 3: D[1] = F[0]; D[2] = F[0]; break; case 4: D[2] = F[0] | F[1]; sx_reach("diamond"); break; case 5: D[1] = F[0]; D[2] = F[0] | F[1]; break; case 6: D[0] = F[1]; D[1] = F[0]; D[2] = F[0]; sx_reach("cyclic"); break; default: D[0] = (bit ? 1u : 0x80000000u); D[1] = F[0]; break; }
  const StepSequenceList L[3] = { {F[O[order][0]], "x", D[O[order][0]], [=]() { return do_dispatch(O[order][0]); }, [=]() { return do_poll(O[order][0]); }}, {F[O[order][1]], "y", D[O[order][1]], [=]() { return do_dispatch(O[order][1]); }, [=]() { return do_poll(O[order][1]); }}, {F[O[order][2]], "z", D[O[order][2]], [=]() { return do_dispatch(O[order][2]); }, [=]() { return do_poll(O[order][2]); }} };
  AsyncSequencer s(L, 3); seq = &s; sx_assert(s.stepCount() == 3 && s.getStep(2) == &L[2] && s.getStep(3) == nullptr, "steps are listed"); check();
  int made = 0;
  for (int k = 0; k < (THOROUGH ? 7 : 6); k++) {
    int op = k == 0 ? 1 : k == 1 ? 0 : made ? 0 : sx_choose(3, "op"); if (k && op) made = 1;
    if (op == 0 || op > 2) {
      uint32_t q, rb0, rn0 = RUNN, c0 = COMP, rb; s.getState(&q, &rb0, nullptr, nullptr, nullptr); int d0[3], p0[3]; for (int i = 0; i < 3; i++) { d0[i] = disp[i]; p0[i] = polls[i]; }
      uint32_t ready = rb0 & ~COMP & ~RUNN, pass0 = PASS; int r = s.poll(); s.getState(nullptr, &rb, nullptr, nullptr, nullptr);
      for (int i = 0; i < 3; i++) { sx_assert(disp[i] - d0[i] == ((ready & F[i]) ? 1 : 0), "each poll dispatches all that is ready, once"); bool ran = (rn0 & F[i]) || ((ready & F[i]) && last_d[i] == 1); sx_assert(polls[i] - p0[i] == (ran ? 1 : 0), "each poll polls all that runs, once"); if ((REQ & F[i]) && D[i] == (D[i] & pass0)) sx_assert(rb & F[i], "what is requested and depends on nothing more can run"); }
      uint32_t ready1 = rb & ~COMP & ~RUNN; int n = 0; for (int b = 0; b < 32; b++) n += (((rn0 ^ RUNN) >> b) & 1) + (((c0 ^ COMP) >> b) & 1) + (((ready ^ ready1) >> b) & 1); sx_assert(r == n, "a poll tells how many states have changed");
    } else if (op == 1) {
      int m = k ? 1 << sx_choose(3, "more") : sx_choose(8, "mask"); uint32_t M = (m & 1 ? F[0] : 0) | (m & 2 ? F[1] : 0) | (m & 4 ? F[2] : 0); if (order) M |= 0x1000; s.requestSteps(M); REQ |= closure(M); if (REQ != U) sx_reach("unrequested"); if (m && REQ != (M & U)) sx_reach("partial");
    } else {
      if (sx_choose(2, "all")) { s.resetSequencer(); REQ = RUNN = COMP = PASS = 0; sx_reach("reset"); uint32_t rb; s.getState(nullptr, &rb, nullptr, nullptr, nullptr); sx_assert(rb == 0, "a reset leaves nothing to run"); }
      else { uint32_t M = 0; int w = sx_choose(3, "step"); M = F[w]; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) if (D[i] & M) M |= F[i]; s.resetSteps(M); REQ &= ~M; RUNN &= ~M; COMP &= ~M; PASS &= ~M; sx_reach("again"); }
    }
    check();
    if (REQ && s.request_fulfilled()) sx_reach("fulfilled"); if (REQ && s.request_completed() && !s.request_fulfilled()) sx_reach("completed");
  }
  return 0;
}

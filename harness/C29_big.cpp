//@ reach: done restored stuck
//@ bounds: and 12 and 32 steps in chains, trees, layers and stars, listed in and against their order, with one step of any place that fails or is retried at its dispatch or poll; the state of a sequencer taken up by another halfway; every state of five masks set and read back
#include "sx.h"
#include "rt_common.h"
#include <new>
#include "AsyncSequencer.h"
static int N, disp[32], passes[32], bad; static uint32_t D[32], PASS; static int how, retries; static bool first_poll[32];
static int do_dispatch(int i) { sx_assert(D[i] == (D[i] & PASS), "a step is dispatched when all that it depends on has passed"); if (i == bad && how == 0 && retries-- > 0) return 0; disp[i]++; if (i == bad && how == 1) { int r = (int) sx_u32("result"); sx_assume(r != 0 && r != 1); return r; } return 1; }
static int do_poll(int i) { sx_assert(disp[i] == 1 && passes[i] == 0, "only what runs is polled"); if (i == bad && how == 2 && retries-- > 0) return 0; if (i == bad && how == 3) { int r = (int) sx_u32("result"); sx_assume(r != 0 && r != 1); return r; } passes[i]++; PASS |= 1u << i; return 1; }
int sx_main() {
  sx_budget(400000000);
  static const int NS[3] = {1, 12, 32}; N = NS[sx_choose(3, "n")]; const int shape = sx_choose(4, "shape"); const bool rev = sx_choose(2, "reverse"); how = sx_choose(5, "how"); retries = 3; const int at[4] = {0, 1, N / 2, N - 1}; bad = how == 4 ? -1 : at[sx_choose(4, "at")]; if (bad >= N) return 0; PASS = 0;
  for (int i = 0; i < N; i++) { disp[i] = passes[i] = 0; D[i] = i == 0 ? 0 : shape == 0 ? 1u << (i - 1) : shape == 1 ? 1u << ((i - 1) / 2) : shape == 2 ? (i < 4 ? 0u : 0xFu << (i / 4 * 4 - 4)) : (1u << i) - 1; }
  StepSequenceList* L = (StepSequenceList*) malloc(N * sizeof(StepSequenceList)); for (int k = 0; k < N; k++) { int i = rev ? N - 1 - k : k; new (L + k) StepSequenceList{1u << i, "s", D[i], [i]() { return do_dispatch(i); }, [i]() { return do_poll(i); }}; }
  AsyncSequencer a(L, N), b(L, N); AsyncSequencer* s = &a; const int top = sx_choose(2, "top") ? N - 1 : N / 2; uint32_t want = 1u << top; for (int i = top; i >= 0; i--) if (want & (1u << i)) want |= D[i];
  { uint32_t v[5], g[5]; for (int i = 0; i < 5; i++) v[i] = sx_u32("state"); b.setState(v[0], v[1], v[2], v[3], v[4]); b.getState(g, g + 1, g + 2, g + 3, g + 4); for (int i = 0; i < 5; i++) sx_assert(g[i] == v[i], "a state is read back as set"); sx_assert(b.failed_steps(false) == (v[3] & ~v[4]) && b.failed_steps(true) == (v[1] & ~v[4]) && b.steps_running() == (v[2] != 0), "what completed without passing failed"); b.resetSequencer(); b.getState(g, g + 1, g + 2, g + 3, g + 4); for (int i = 0; i < 5; i++) sx_assert(g[i] == 0, "a reset leaves nothing"); }
  s->requestSteps(1u << top); uint32_t q; s->getState(&q, nullptr, nullptr, nullptr, nullptr); sx_assert(q == want, "a request covers all that it depends on");
  for (int k = 0; k < 2 * N + 10; k++) { s->poll(); if (k == N / 2) { uint32_t g[5]; s->getState(g, g + 1, g + 2, g + 3, g + 4); b.setState(g[0], g[1], g[2], g[3], g[4]); a.resetSequencer(); s = &b; sx_reach("restored"); } }
  uint32_t blocked = 0; if (bad >= 0 && (how == 1 || how == 3)) { blocked = 1u << bad; for (int i = 0; i < N; i++) if (D[i] & blocked) blocked |= 1u << i; }
  for (int i = 0; i < N; i++) { bool runs = (want & ~blocked) >> i & 1; sx_assert(passes[i] == runs, "every requested step passes, unless what it depends on does not"); sx_assert(disp[i] == (runs || (i == bad && (want >> i & 1) && (D[i] & blocked) == 0)), "a step is dispatched once"); }
  sx_assert(s->request_fulfilled() == ((want & blocked) == 0) && !s->steps_running() && s->all_steps_have_passed(want & ~blocked) && s->failed_steps(false) == ((bad >= 0 && (want >> bad & 1)) ? (blocked & (1u << bad)) : 0), "a request is fulfilled when all of it has passed"); if (want & blocked) sx_reach("stuck");
  sx_reach("done"); return 0;
}

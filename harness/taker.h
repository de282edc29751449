// A buffer accepter that announces and takes what the path decides, and records it.
#pragma once
#include "sx.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
struct Taker : public BufferAccepter {
  uint8_t got[64]; int n = 0; int32_t avail = 0; bool honest = true; int pushes = 0;
  int32_t bufferAvailable() { return avail; }
  int8_t pushBuffer(StringBuilder* b) {
    int L = b->length(); int t = sx_branch(L <= avail) ? L : sx_branch(avail < 0) ? 0 : (int) sx_concretize(avail); pushes++;
    if (!honest) { int k = sx_choose(3, "take"); if (k == 0) t = 0; else if (k == 1 && t > 1) t = 1; }
    for (int i = 0; i < t; i++) got[n++] = b->byteAt(i);
    b->cull(t); if (honest) avail -= t;
    return t == 0 ? -1 : (t < L ? 0 : 1);
  }
};
static inline int rc_of(int before, int after) { return after == before ? -1 : (after ? 0 : 1); }

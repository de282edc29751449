//@ reach: done
//@ bounds: and two live links that exchange 40 messages of 1 to 66000 bytes of text, plain and wanting an answer, over a transport that carries pieces of 61 to 70000 bytes
#include "plat.h"
#include "rt_common.h"
#include "M2MLink/M2MLink.h"
typedef M2MLinkState St; static const int CAP = 70000; static char text[66100];
struct Wire : public BufferAccepter { StringBuilder q; int8_t pushBuffer(StringBuilder* s) { q.concatHandoff(s); return 1; } int32_t bufferAvailable() { return CAP; } void give(M2MLink* to, int k) { if (q.length()) { StringBuilder s; if (q.length() <= k) s.concatHandoff(&q); else s.concatHandoffLimit(&q, k); to->pushBuffer(&s); } } };
static int seen, answers, wantN; static int len_[64]; static bool need_[64]; static uint32_t tagA, tagB; static int ansAt;
static int size_of(int i) { static const int S[] = { 1, 200, 240, 250, 251, 252, 253, 254, 255, 256, 257, 300, 5, 65520, 40, 66000 }; return S[i & 15]; }
static void cb(uint32_t tag, M2MMsg* m) {
  KeyValuePair* p = nullptr; sx_assert(m->getPayload(&p) == 0 && p, "a long message has its content"); char* s = nullptr; sx_assert(0 == p->valueWithKey("s", &s) && s, "a long message has its content");
  if (m->isReply()) { sx_assert(tag == tagA && ansAt < seen && 0 == strcmp(s, "ok"), "the answer received is the answer given"); answers++; }
  else { sx_assert(tag == tagB && seen < wantN, "nothing is received that was not sent"); const int L = len_[seen]; sx_assert((int) strlen(s) == L && 0 == memcmp(s, text + (seen & 7), L), "long messages arrive whole, in order"); ansAt = seen; seen++; if (m->expectsReply()) { KeyValuePair a("s", (char*) "ok"); sx_assert(m->reply(&a) == 0, "reply"); } }
  delete p;
}
int sx_main() {
  sx_budget(800000000); plat_ms_direct = 1; plat_ms = 1000; uint32_t heap = sx_heap_bytes();
  {
    for (int i = 0; i < 66100; i++) text[i] = 'a' + (i * 7 + (i >> 8)) % 26; M2MLinkOpts oa(2000, 1000, CAP, TCode::CBOR, 0), ob(2000, 1000, CAP, TCode::CBOR, 0); oa.max_outbound = ob.max_outbound = 8; M2MLink a(&oa), b(&ob); Wire ab, ba; a.setEfferant(&ab); b.setEfferant(&ba); a.setCallback(cb); b.setCallback(cb);
    const bool huge = sx_choose(2, "huge"); const int pieces[] = { 61, 1000, CAP }; const int piece = huge ? CAP : pieces[sx_choose(3, "piece")]; seen = answers = wantN = 0; ansAt = -1; int needN = 0;
    for (int i = 0; i < 60 && !(a.linkIdle() && b.linkIdle()); i++) { a.poll(); b.poll(); ab.give(&b, piece); ba.give(&a, piece); plat_ms += 5; } sx_assert(a.linkIdle() && b.linkIdle(), "the links attain sync"); tagA = a.linkTag(); tagB = b.linkTag();
    const int N = huge ? 4 : 40; for (int i = 0, turns = 0; i < N || !(a.linkIdle() && b.linkIdle() && ab.q.isEmpty() && ba.q.isEmpty()); turns++) {
      if (i < N && turns % 2 == 0) { int L = huge ? size_of(12 + i) : size_of(i); if (!huge && L > 400) L = 13 + i; char* t = (char*) malloc(L + 1); memcpy(t, text + (i & 7), L); t[L] = 0; KeyValuePair kv("s", t); const bool need = i % 3 == 1; len_[wantN] = L; const int rc = a.send(&kv, need); if (rc >= 0) { sx_assert(need == (rc > 0), "a message that is taken has an ID if it wants an answer"); wantN++; if (need) needN++; i++; } else sx_assert(rc == -3, "no more messages than the queue holds"); free(t); }
      a.poll(); b.poll(); ab.give(&b, piece); ba.give(&a, piece); plat_ms += 1; sx_assert(turns < 3000, "everything gets done");
    }
    sx_assert(seen == N && answers == needN, "each message arrives once, and each that wants an answer gets one"); sx_assert(a.replyTimeouts() == 0 && b.replyTimeouts() == 0 && a.isConnected() && b.isConnected(), "a live link carries messages"); sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap, "links release all that they took");
  return 0;
}

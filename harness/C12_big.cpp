//@ reach: done
//@ bounds: and messages whose payload makes them 240 to 262 and 65520 to 65550 bytes long, arriving in pieces of 1, 7, 64, 256, 8192 bytes or whole, with any ID
#include "plat.h"
#include "rt_common.h"
#include "M2MLink/M2MLink.h"
typedef M2MMsgHdr Hdr; typedef M2MMsgCode Code;
int sx_main() {
  sx_budget(400000000); uint32_t heap0 = sx_heap_bytes();
  {
    const int huge = sx_choose(2, "huge"); const int L = huge ? 65505 + 5 * sx_choose(7, "len") : 225 + sx_choose(23, "len"); static const uint32_t IDS[] = {0, 1, 255, 256, 65535, 65536, 0xFFFFFF}; const uint32_t id = IDS[sx_choose(7, "id")];
    char* t = (char*) malloc(L + 1); for (int i = 0; i < L; i++) t[i] = 'a' + i % 26; t[L - 1] = sx_u8("m"); sx_assume(t[L - 1]); t[L] = 0;
    Hdr h(Code::APPLICATION, 0, id ? 1 : 0, id); M2MMsg m(&h, BusOpcode::TX); sx_assert(0 == m.encoding(TCode::CBOR), "encoding"); KeyValuePair kv("k", (const char*) t); sx_assert(0 == m.setPayload(&kv), "a long payload is set");
    StringBuilder w; sx_assert(0 == m.serialize(&w), "a long message is written"); const int n = w.length(); Hdr g; sx_assert(M2MMsg::attempt_header_parse(&g, &w) == 2 && g.total_length() == n && g.msg_id == id && g.payload_length() == n - g.header_length(), "the header of a long message agrees with what is sent");
    sx_assert(g.len_length() == (n < 256 ? 1 : n < 65536 ? 2 : 3) && g.id_length() == (id == 0 ? 0 : id < 256 ? 1 : id < 65536 ? 2 : 3), "length fields of a long message");
    w.concat("zz"); static const int P[] = {1, 7, 64, 256, 8192, 100000}; const int p = P[huge ? 4 + sx_choose(2, "piece") : sx_choose(5, "piece")]; StringBuilder buf; M2MMsg* in = nullptr; int given = 0; w.string();
    while (given < n + 2) { int k = n + 2 - given < p ? n + 2 - given : p; StringBuilder part; part.concatHandoffLimit(&w, k); buf.concatHandoff(&part); given += k;
      if (!in) { if (given < g.header_length() || given < 4) continue; in = M2MMsg::unserialize(&buf); sx_assert(in != nullptr, "a header makes a message"); if (!in) return 0; in->encoding(TCode::CBOR); } else if (!in->rxComplete()) { int r = in->accumulate(&buf); sx_assert(r == (given >= n ? 1 : 0), "accumulate() tells if the message is complete"); }
      sx_assert(in->rxComplete() == (given >= n), "the message is complete when its last byte has arrived"); }
    sx_assert(buf.length() == 2 && buf.byteAt(0) == 'z', "what follows the message is left alone"); KeyValuePair* q = nullptr; char* s = nullptr; sx_assert(0 == in->getPayload(&q) && q && 0 == q->valueWithKey("k", &s) && 0 == strcmp(s, t), "a long payload is received as it was sent"); if (q) delete q;
    sx_assert(in->uniqueId() == id && in->isValidMsg(), "the message received is the message sent"); delete in; free(t); sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "messages release all that they took");
  return 0;
}

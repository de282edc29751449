//@ reach: len1 len2 len3 toolong id0 id1 id2 id3 refused complete partial short badsum nolen under reply ack noreply round split bare badpayload hostile full unencodable
//@ bounds: every message code, flag set, ID and payload length (32 bits each) for building headers; parsing of any input of 0..10 bytes; messages with a key of up to 2 and a value of 4 arbitrary bytes, in either encoding, arriving in any two pieces (thorough: three) with up to 3 bytes of what follows; hostile payloads of up to 3 (thorough 4) arbitrary bytes
//@ outside: what the fields mean to the link (C13); the codes SERVICE_LIST and above SERVICE_SLOT_F are not valid in this version of the protocol; a message longer than the MTU; encodings other than BINARY and CBOR are refused, and BINARY cannot carry a payload
#include "plat.h"
#include "rt_common.h"
#include "M2MLink/M2MLink.h"
typedef M2MMsgHdr Hdr; typedef M2MMsgCode Code;
static bool codeok(uint8_t c) { return (c >= 1 && c <= 9) || c == 0x0E || c == 0x0F || (c >= 0x10 && c <= 0x1F); }
static int idsz(uint32_t i) { return i == 0 ? 0 : i <= 0xFF ? 1 : i <= 0xFFFF ? 2 : i <= 0xFFFFFF ? 3 : 4; }

static void build() {
  uint8_t code = sx_u8("code"), f = sx_u8("flags"); uint32_t id = sx_u32("id"), pl = sx_u32("pl"); plat_rng_mode = 1;
  uint8_t p0 = sx_u8("p0"); Hdr h((Code) code, p0, f, id);
  sx_assert((f & 3) == (h.flags & 0x0F), "of the flags, only those of replies are the caller's");
  uint32_t want = id & 0xFFFFFF;
  if (sx_branch(want == 0 && (f & 1) && code != 1)) { sx_assert(h.msg_id > 0 && h.msg_id <= 0xFFFFFF, "a message that needs a reply gets an ID"); }
  else sx_assert(h.msg_id == want, "the ID is the caller's");
  int is = idsz(h.msg_id); is = sx_branch(is == 0) ? 0 : sx_branch(is == 1) ? 1 : sx_branch(is == 2) ? 2 : 3; sx_reach(is == 0 ? "id0" : is == 1 ? "id1" : is == 2 ? "id2" : "id3");
  sx_assert(h.id_length() == is, "the ID takes as many bytes as it needs");
  sx_assert(h.payload_length() == p0 && h.total_length() == h.header_length() + p0, "the length of the message is that of its header and payload");
  bool big = sx_choose(2, "big");
  if (big) {
    uint32_t base = 4 + is; bool fits = pl <= 0xFFFFFF && pl + base + 2 <= 0xFFFFFF; int before = h.total_length();
    bool ok = h.set_payload_length(pl); sx_assert(ok == fits, "a payload is accepted if a message that carries it has a length that can be written");
    if (!sx_branch(ok)) { sx_assert(h.total_length() == before, "a length that is refused changes nothing"); sx_reach("toolong"); return; }
    sx_assert((uint32_t) h.payload_length() == pl && (uint32_t) h.total_length() == (uint32_t) h.header_length() + pl, "the length of the message is that of its header and payload");
  }
  uint32_t tot = h.total_length(); int ll = h.len_length(); ll = sx_branch(ll == 1) ? 1 : sx_branch(ll == 2) ? 2 : 3;
  sx_assert(h.len_length() == ll && (ll == 1 ? tot <= 0xFF : ll == 2 ? tot > 0xFF && tot <= 0xFFFF : tot > 0xFFFF && tot <= 0xFFFFFF), "the length takes as many bytes as it needs"); sx_reach(ll == 1 ? "len1" : ll == 2 ? "len2" : "len3");
  bool rep = (h.flags & 3) != 0; bool valid = codeok(code) && (code == 1 || rep == (is != 0));
  sx_assert(h.isValid() == valid, "a built header is valid if its code is known, and it has an ID if and only if it is part of a dialog");
  sx_assert(h.isSync() == (code == 1 && is == 0 && tot == 4), "a sync packet is recognized");
  StringBuilder s; bool ser = h.serialize(&s); sx_assert(ser == valid, "valid headers are the ones that can be written");
  if (!sx_branch(ser)) { sx_assert(s.isEmpty(), "nothing is written otherwise"); sx_reach("refused"); return; }
  sx_assert(s.length() == h.header_length() && s.length() == 3 + ll + is, "the header is as long as it says");
  uint32_t wl = 0, wi = 0; for (int i = 0; i < ll; i++) wl = (wl << 8) | s.byteAt(2 + i); for (int i = 0; i < is; i++) wi = (wi << 8) | s.byteAt(2 + ll + i);
  sx_assert(s.byteAt(0) == code && s.byteAt(1) == (((f & 3) | (ll << 4) | (is << 6)) & 0xFF) && wl == tot && wi == h.msg_id && s.byteAt(2 + ll + is) == (uint8_t) (s.byteAt(0) + s.byteAt(1) + tot + 1), "the header is on the wire as specified");
  Hdr g; int r = M2MMsg::attempt_header_parse(&g, &s);
  sx_assert(r == (sx_branch(tot > (uint32_t) (3 + ll + is)) ? 0 : 1) && g.msg_code == h.msg_code && g.flags == h.flags && g.msg_len == h.msg_len && g.msg_id == h.msg_id && g.chk_byte == h.chk_byte && g.isValid(), "the other side reads the same header");
}
static void parse() {   // any input against the definition of the frame
  const int N = 10; uint8_t b[N]; int n = sx_choose(N + 1, "n"); for (int i = 0; i < n; i++) b[i] = sx_u8("b");
  StringBuilder s; if (n) s.concat(b, n); Hdr h; int r = M2MMsg::attempt_header_parse(&h, &s); sx_assert(s.length() == n, "looking at a header consumes nothing");
  int want = -2, ll = 0, is = 0; uint32_t L = 0, I = 0;
  if (n >= 4) {
    uint8_t f = b[1]; ll = sx_concretize((f >> 4) & 3); is = sx_concretize(f >> 6); int hl = 3 + ll + is;
    if (ll == 0) { want = -3; sx_reach("nolen"); }
    else if (hl <= n) {
      for (int i = 0; i < ll; i++) L = (L << 8) | b[2+i]; for (int i = 0; i < is; i++) I = (I << 8) | b[2+ll+i];
      want = -3;
      if (sx_branch(b[hl-1] == (uint8_t) (b[0] + b[1] + L + 1))) { if (sx_branch(L < (uint32_t) hl)) sx_reach("under"); else { want = sx_branch(L == (uint32_t) hl) ? 1 : sx_branch(L <= (uint32_t) n) ? 2 : 0; sx_reach(want ? "complete" : "partial"); } } else sx_reach("badsum");
    } else sx_reach("short");
  } else sx_reach("short");
  sx_assert(r == want, "input is taken for a header if it is one");
  if (want >= 0) sx_assert((uint8_t) h.msg_code == b[0] && h.flags == b[1] && h.msg_len == L && h.msg_id == I && h.payload_length() == (int) L - h.header_length(), "the header has the fields on the wire");
  if (want == -2 && n >= 4) sx_assert(n < 9, "waiting for more ends at the longest header");
}
static void message() {  // payloads survive, however they are cut
  TCode e = sx_choose(2, "enc") ? TCode::CBOR : TCode::BINARY; uint32_t v = sx_u32("v"); char k[3] = {0}; int kl = 1 + sx_choose(2, "kl"); for (int i = 0; i < kl; i++) { k[i] = sx_u8("k"); sx_assume(k[i] > 0x20 && k[i] < 0x7F); }
  uint8_t f = sx_choose(2, "expect") ? 1 : 0; uint32_t id = f ? 1 + sx_u8("id") : 0;
  if (f) { id = sx_branch(id > 255) ? 256 : id; }
  uint32_t heap = sx_heap_bytes();
  { Hdr h(Code::APPLICATION, 0, f, id); M2MMsg m(&h, BusOpcode::TX); sx_assert(m.encoding(e) == 0 && m.encoding() == e && m.encoding(TCode::NONE) == -1 && m.encoding() == e, "encodings");
    bool bare = sx_choose(2, "bare"); KeyValuePair kv((char*) k, v);
    bool set = !bare || sx_choose(2, "set"); int sp = set ? m.setPayload(bare ? nullptr : &kv) : 0; if (!bare && e == TCode::BINARY) { sx_assert(sp == -2, "a payload that cannot be encoded is refused"); StringBuilder w; sx_assert(m.serialize(&w) == 0 || w.isEmpty(), "no part of a message"); sx_reach("unencodable"); return; }
    sx_assert(sp == 0, "payload"); sx_assert(m.isValidMsg() && m.expectsReply() == (f != 0) && !m.isReply() && m.direction() == BusOpcode::TX && m.uniqueId() == id, "message");
    StringBuilder w, w2; sx_assert(m.serialize(&w) == 0 && m.serialize(&w2) == 0, "serialize"); int n = w.length(); sx_assert(n == w2.length(), "a message can be sent again"); for (int i = 0; i < n; i++) sx_assert(w.byteAt(i) == w2.byteAt(i), "a message can be sent again");
    Hdr hh; int rr = M2MMsg::attempt_header_parse(&hh, &w); sx_assert(hh.total_length() == n && rr == (bare ? 1 : 2), "the header agrees with what is sent"); if (bare) sx_reach("bare");
    int extra = bare ? sx_choose(2, "x") : sx_choose(3, "x"); uint8_t x[3]; for (int i = 0; i < extra; i++) x[i] = sx_u8("x"); if (extra) w.concat(x, extra);
    int hl = hh.header_length(), c1 = hl + sx_choose(n + extra - hl + 1, "c1"), c2 = THOROUGH ? c1 + sx_choose(n + extra - c1 + 1, "c2") : n + extra;
    int cut[4] = {0, c1, c2, n + extra}; M2MMsg* in = nullptr; StringBuilder buf; int done = 0;
    for (int i = 0; i < 3; i++) { for (int j = cut[i]; j < cut[i+1]; j++) { uint8_t c = w.byteAt(j); buf.concat(&c, 1); }
      if (!in) { in = M2MMsg::unserialize(&buf); sx_assert(in != nullptr, "a header makes a message"); sx_assert(in->encoding(e) == 0, "enc"); }
      else if (!in->rxComplete()) { int r = in->accumulate(&buf); sx_assert(r == (cut[i+1] >= n ? 1 : 0), "accumulate() tells if the message is complete"); }
      sx_assert(in->rxComplete() == (cut[i+1] >= n), "the message is complete when its last byte has arrived");
      KeyValuePair* q = nullptr; if (cut[i+1] < n) { sx_assert(in->getPayload(&q) == -1 && !q, "no payload before that"); sx_reach("split"); } else done = 1;
    }
    sx_assert(done && buf.length() == extra, "what follows the message is left alone"); for (int i = 0; i < extra; i++) sx_assert(buf.byteAt(i) == x[i], "what follows the message is left alone");
    sx_assert(in->isValidMsg() && in->msgCode() == Code::APPLICATION && in->uniqueId() == id && in->expectsReply() == (f != 0) && in->direction() == BusOpcode::RX, "the message received is the message sent");
    KeyValuePair* p = nullptr; sx_assert(in->getPayload(&p) == 0, "getPayload");
    if (bare) sx_assert(!p, "no payload");
    else { uint32_t g = 0; sx_assert(p && p->count() == 1 && p->valueWithKey(k, &g) == 0 && g == v, "the payload received is the payload sent"); sx_reach("round"); }
    if (p) delete p;
    // answer it
    bool withpl = e == TCode::CBOR && sx_choose(2, "pl"); bool more = withpl && sx_choose(2, "more"); KeyValuePair ans("z", (uint16_t) (v >> 16));
    sx_assert((withpl ? in->reply(&ans, more) : in->ack()) == (f ? 0 : -2), "a message that has an ID can be answered"); sx_assert(in->direction() == BusOpcode::TX && in->isReply() && in->expectsReply() == more && in->uniqueId() == id, "the reply carries the ID of the message that it answers");
    sx_assert(in->reply(nullptr) == -1, "a message is answered once"); sx_reach(withpl ? "reply" : "ack");
    StringBuilder o; int so = in->serialize(&o);
    if (f) { sx_assert(so == 0 && in->isValidMsg(), "the reply can be sent"); M2MMsg* back = M2MMsg::unserialize(&o); sx_assert(back && o.isEmpty(), "and received"); back->encoding(e);
      sx_assert(back->rxComplete() && back->isValidMsg() && back->isReply() && back->uniqueId() == id && back->expectsReply() == more, "the answer is recognized");
      KeyValuePair* bp = nullptr; sx_assert(back->getPayload(&bp) == 0 && (bp != nullptr) == withpl, "its payload"); uint16_t g16 = 0; if (bp) { sx_assert(bp->valueWithKey("z", &g16) == 0 && g16 == (uint16_t) (v >> 16), "its payload"); delete bp; }
      delete back; }
    else sx_reach("noreply");
    delete in; }
  sx_assert(sx_heap_bytes() == heap, "messages release all that they took");
}
static void hostile() {   // any payload
  const int N = THOROUGH ? 4 : 3; uint8_t p[8]; int n = 1 + sx_choose(N, "n"); for (int i = 0; i < n; i++) p[i] = sx_u8("p"); TCode e = TCode::CBOR;
  uint32_t heap = sx_heap_bytes();
  { Hdr h(Code::APPLICATION, n, 1, 0x123456); M2MMsg m(&h, BusOpcode::RX); m.encoding(e); StringBuilder s; s.concat(p, n); sx_assert(m.accumulate(&s) == 1 && m.rxComplete() && m.isValidMsg(), "complete");
    KeyValuePair* q = nullptr; sx_assert(m.getPayload(&q) == 0, "getPayload"); if (q) { sx_assert(q->count() >= 1, "decoded"); delete q; sx_reach("hostile"); } else sx_reach("badpayload");
    sx_assert(m.ack() == 0, "it can be answered"); StringBuilder o; sx_assert(m.serialize(&o) == 0 && o.length() == 7, "answer"); m.wipe(); sx_assert(!m.isValidMsg() && m.direction() == BusOpcode::UNDEF && m.uniqueId() == 0, "wiped"); }
  sx_assert(sx_heap_bytes() == heap, "messages release all that they took"); sx_reach("full");
}
int sx_main() { switch (sx_choose(4, "part")) { case 0: build(); break; case 1: parse(); break; case 2: message(); break; default: hostile(); }  return 0; }

//@ reach: live recovered lost_ok sent answered acked plain unanswered full retried gave_up refused_tx order hung forced again remote_log log_refused auth svc_hit svc_miss junk_ok flood found straddle over_mtu at_mtu tolerated desynced
//@ bounds: two links with arbitrary 32-bit payload values, joined by a transport that adds up to 3 arbitrary bytes, or loses or delays any suffix of what is on its way, at any one of the first 8 rounds of a session; sessions of up to 4 messages, each plain or wanting an answer, over a transport that loses any one or all of the transmissions or refuses some; 5 (thorough 6) arbitrary bytes for a live link, and messages with any service slot, code and up to 1 (thorough 2) bytes of payload; streams of up to 9 bytes with a sync packet at any place, cut at any two places; messages of every length around the MTU; up to 5 messages of which any are not valid
//@ outside: damage that passes for a header with a length up to the MTU is only outlasted when that much has been received; messages that want no answer are lost if the transport loses them; the contents of identities (not built here); verbose logs; the RPC services; use of a link from within its callbacks other than answering
#include "plat.h"
#include "rt_common.h"
#include <stdio.h>
#include "M2MLink/M2MLink.h"
typedef M2MMsgHdr Hdr; typedef M2MMsgCode Code; typedef M2MLinkState St;
struct Wire : public BufferAccepter {
  uint8_t b[512]; int n = 0; bool dead = false;
  int8_t pushBuffer(StringBuilder* s) { if (dead) return -1; int L = s->length(); sx_assert(n + L <= 512, "wire"); for (int i = 0; i < L; i++) b[n++] = s->byteAt(i); s->clear(); return 1; }
  int32_t bufferAvailable() { return 512 - n; }
  void give(M2MLink* to, int k) { if (k > n) k = n; if (k) { StringBuilder s; s.concat(b, k); to->pushBuffer(&s); memmove(b, b + k, n - k); n -= k; } }
};
struct Rig {
  M2MLink a, b; Wire ab, ba;
  Rig(M2MLinkOpts* oa, M2MLinkOpts* ob) : a(oa), b(ob) { a.setEfferant(&ab); b.setEfferant(&ba); }
  void round() { a.poll(); b.poll(); ab.give(&b, 512); ba.give(&a, 512); plat_ms += 5; }
  bool idle() { return a.linkIdle() && b.linkIdle(); }
  int settle(int m) { int i = 0; while (i < m && !(idle() && !ab.n && !ba.n)) { round(); i++; } return i; }
};

static M2MLinkOpts opts(uint32_t fl = M2MLINK_FLAG_SEND_KA, uint32_t mtu = 64, int depth = 8) { M2MLinkOpts o(20, 10, mtu, TCode::CBOR, fl); o.max_outbound = depth; return o; }
struct Ev { uint32_t tag; bool reply; uint32_t id, v; bool has; }; static Ev ev[16]; static int en; static int mode;   // what the applications saw, and how they answer
static void cb(uint32_t tag, M2MMsg* m) {
  sx_assert(en < 16, "no more messages than were sent"); Ev* e = &ev[en++]; e->tag = tag; e->reply = m->isReply(); e->id = m->uniqueId(); e->has = false; e->v = 0;
  sx_assert(m->direction() == BusOpcode::RX && m->msgCode() == Code::APPLICATION && m->rxComplete(), "applications see complete messages of their own");
  KeyValuePair* p = nullptr; sx_assert(m->getPayload(&p) == 0, "payload"); if (p) { e->has = (0 == p->valueWithKey("v", &e->v)); delete p; }
  if (m->expectsReply()) { if (mode == 1) { KeyValuePair a("v", (uint32_t) (e->v + 1)); sx_assert(m->reply(&a) == 0, "reply"); } else if (mode == 2) sx_assert(m->ack() == 0, "ack"); }
}
static int states; static void scb(M2MLink* l) { states++; }
static void noise() {   // damage at any point of a session: it is established all the same
  M2MLinkOpts oa = opts(), ob = opts(); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb);
  int t = sx_choose(8, "t"), kind = sx_choose(3, "kind"), n = kind == 0 ? sx_choose(4, "n") : 0; bool rev = kind && sx_choose(2, "dir");
  for (int i = 0; i < 70 && (i <= t || !(r.idle() && !r.ab.n && !r.ba.n)); i++) {
    if (i == t && kind == 0) for (int j = 0; j < n; j++) r.ab.b[r.ab.n++] = sx_u8("g");
    if (i == t && kind) { r.a.poll(); r.b.poll(); Wire* w = rev ? &r.ba : &r.ab; if (w->n) { int k = sx_choose(w->n, "k"); if (kind == 1) { w->n = k; sx_reach("lost_ok"); } else w->give(rev ? &r.a : &r.b, k); } }
    r.round();
  }
  sx_assert(r.idle() && r.a.isConnected() && r.b.isConnected(), "the links attain sync and establish a session"); sx_reach("live"); if (n) sx_reach("recovered");
  uint32_t v = sx_u32("v"); en = 0; mode = 2; KeyValuePair kv("v", v); int to = r.a.replyTimeouts(); int id = r.a.send(&kv, true); sx_assert(id > 0, "send"); r.round(); r.settle(40);
  bool got = false; for (int i = 0; i < en; i++) if (!ev[i].reply) { got = true; sx_assert(ev[i].has && ev[i].v == v && ev[i].id == (uint32_t) id && ev[i].tag == r.b.linkTag(), "the message received is the message sent"); }
  sx_assert(got && r.idle() && r.a.replyTimeouts() == to, "a live link carries messages");
}
static void talk() {   // messages between applications
  int depth = 2 + sx_choose(2, "depth"); M2MLinkOpts oa = opts(0, 64, depth), ob = opts(0); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); r.a.setCallback(scb);
  KeyValuePair none("v", (uint32_t) 1); sx_assert(r.a.send(&none) == -4, "no messages before the link is up"); sx_assert(!r.idle(), "idle"); r.settle(30); sx_assert(r.idle() && states == 1 && r.a.linkTag() != 0, "live, and the application was told");
  const int N = 3; uint32_t v[4]; bool need[4]; int id[4]; int acc = 0; mode = sx_choose(3, "mode"); int refuse = sx_choose(3, "refuse"); bool bare0 = sx_choose(2, "bare"); uint32_t want[8]; en = 0;
  for (int i = 0; i < N; i++) { v[i] = sx_u32("v"); need[i] = sx_choose(2, "need"); KeyValuePair kv("v", v[i]); int rc = r.a.send((i == 0 && bare0) ? nullptr : &kv, need[i]);
    if (i < depth) { sx_assert(need[i] ? (rc > 0 && rc <= 0xFFFFFF) : rc == 0, "a message that is taken has an ID if it wants an answer"); id[i] = rc; acc++; } else { sx_assert(rc == -3, "no more messages than the queue holds"); sx_reach("full"); } }
  if (refuse) { r.ab.dead = true; for (int i = 0; i < refuse; i++) r.a.poll(); r.ab.dead = false; sx_reach("refused_tx"); }
  int k = r.settle(200); sx_assert(r.idle(), "everything gets done");
  // what b saw
  int un = 0; for (int i = 0; i < acc; i++) if (need[i] && mode == 0) un++;
  sx_assert(r.a.replyTimeouts() == un && r.b.replyTimeouts() == 0, "messages that were not answered are counted");
  int p = 0, seen[4] = {0}, ans[4] = {0}; 
  for (int i = 0; i < en; i++) {
    int m = -1; for (int q = 0; q < acc; q++) if (ev[i].reply ? (need[q] && ev[i].id == (uint32_t) id[q]) : (need[q] ? ev[i].id == (uint32_t) id[q] : (ev[i].id == 0 && !seen[q] && m < 0))) m = q;
    sx_assert(m >= 0, "nothing is received that was not sent");
    if (ev[i].reply) { ans[m]++; sx_assert(ev[i].tag == r.a.linkTag() && seen[m] && ev[i].has == (mode == 1) && (mode != 1 || ev[i].v == ((m == 0 && bare0) ? 1 : v[m] + 1)), "the answer received is the answer given"); }
    else { if (!seen[m]) { sx_assert(m == p, "messages arrive in the order in which they were sent"); p++; } seen[m]++; sx_assert(ev[i].tag == r.b.linkTag() && ev[i].has == !(m == 0 && bare0) && (!ev[i].has || ev[i].v == v[m]), "the message received is the message sent"); }
  }
  for (int q = 0; q < acc; q++) {
    sx_assert(seen[q] == ((need[q] && mode == 0) ? 4 : 1), "each message arrives once, unless it is repeated for want of an answer"); sx_assert(ans[q] == ((need[q] && mode) ? 1 : 0), "each message that wants an answer gets one");
    sx_reach(!need[q] ? "plain" : mode == 1 ? "answered" : mode == 2 ? "acked" : "unanswered"); }
  sx_reach("sent"); if (acc > 1) sx_reach("order");
}
static void loss() {   // transmissions are lost
  M2MLinkOpts oa = opts(0), ob = opts(0); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); r.settle(30); sx_assert(r.idle(), "live");
  uint32_t v = sx_u32("v"); KeyValuePair kv("v", v); en = 0; mode = 1; int id = r.a.send(&kv, true); sx_assert(id > 0, "send");
  uint8_t fate[5]; for (int i = 0; i < 4; i++) fate[i] = sx_choose(3, "fate");   // of each transmission: answered, lost, or its answer lost
  int tx = 0, heard = 0, replies = 0, ntx0 = 0, f = 0; bool done = false; uint64_t lastms = 0;
  for (int i = 0; i < 60; i++) {
    r.a.poll(); if (r.ab.n) { sx_assert(tx < 4, "a message is sent at most four times"); sx_assert(!done, "an answered message is not sent again"); if (tx) sx_assert(plat_ms - lastms > 20, "it is sent again when its time is over"); lastms = plat_ms; f = fate[tx++]; if (f == 1) r.ab.n = 0; else { heard++; if (tx > 1) sx_reach("retried"); } }
    r.ab.give(&r.b, 512); r.b.poll(); if (r.ba.n) { if (f == 2) r.ba.n = 0; else done = true; } r.ba.give(&r.a, 512); plat_ms += 5;
  }
  sx_assert(r.idle(), "everything gets done"); int rq = 0; for (int i = 0; i < en; i++) { if (ev[i].reply) { replies++; sx_assert(ev[i].v == v + 1 && ev[i].id == (uint32_t) id, "answer"); } else { rq++; sx_assert(ev[i].v == v && ev[i].id == (uint32_t) id, "message"); } }
  int exp = 0, eh = 0; bool ea = false; while (exp < 4 && !ea) { if (fate[exp] != 1) eh++; ea = fate[exp] == 0; exp++; }
  sx_assert(tx == exp && rq == eh && replies == (ea ? 1 : 0) && r.a.replyTimeouts() == (ea ? 0 : 1), "a message is repeated until it is answered, or failed after three tries more"); if (!ea) sx_reach("gave_up");
}
static void bye() {   // the end of a session
  M2MLinkOpts oa = opts(0), ob = opts(0); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); r.a.setCallback(scb); r.b.setCallback(scb); mode = 2; sx_assert(r.a.hangup() == -1 && r.a.reset() == -1, "nothing to hang up");
  int when = sx_choose(9, "when"); for (int i = 0; i < when; i++) r.round(); if (when == 8) { r.settle(30); sx_assert(r.idle(), "live"); uint32_t v = sx_u32("v"); KeyValuePair kv("v", v); if (sx_choose(2, "pending")) { en = 0; sx_assert(r.a.send(&kv) == 0, "send"); } else en = 99; }
  St s0 = r.a.currentState(); bool grace = sx_choose(2, "grace"), both = when == 8 && sx_choose(2, "both");
  int rc = r.a.hangup(grace); if (both) r.b.hangup(grace); bool up = (int) s0 >= 2;
  sx_assert(rc == (up ? 0 : -1), "a link that is up can be hung up"); if (!up) return;
  if (!grace) { sx_assert(r.a.currentState() == St::HUNGUP && !r.a.isConnected(), "a link that need not be polite hangs up at once"); sx_reach("forced"); }
  if (when < 8 && grace) return;                        // only a link that is live has someone to tell
  if (grace) {
    bool pend = en == 0; int i = 0; sx_assert(r.a.hangup() == 0 || r.a.hangup() == -2, "again"); for (; i < 80 && !(r.a.currentState() == St::HUNGUP && r.b.currentState() == St::HUNGUP); i++) { r.round(); if (r.a.currentState() == St::PENDING_HANGUP) { KeyValuePair q("v", (uint32_t) 5); sx_assert(r.a.send(&q) == -4 && r.a.hangup() == -2, "a link that is hanging up takes no more messages"); } }
    sx_assert(r.a.currentState() == St::HUNGUP && r.b.currentState() == St::HUNGUP && !r.a.isConnected() && !r.b.isConnected(), "both sides hang up"); sx_reach("hung");
    if (pend) sx_assert(en == 1 && !ev[0].reply, "what was queued before hanging up is delivered");
  } else { r.b.hangup(false); if (r.b.currentState() != St::HUNGUP) return; }
  KeyValuePair q("v", (uint32_t) 5); sx_assert(r.a.send(&q) == -4, "hung up"); int st = states; r.round(); r.round(); sx_assert(r.a.currentState() == St::HUNGUP, "a link stays on the hook"); r.ab.n = r.ba.n = 0;
  sx_assert(r.a.reset() == 0 && r.b.reset() == 0, "reset"); r.round(); r.settle(40); sx_assert(r.idle() && r.a.isConnected() && r.b.isConnected(), "the links can be used again"); sx_reach("again");
  uint32_t w = sx_u32("w"); KeyValuePair kw("v", w); en = 0; mode = 0; sx_assert(r.b.send(&kw) == 0, "send"); r.round(); r.settle(30); sx_assert(en == 1 && ev[0].v == w && ev[0].tag == r.a.linkTag(), "and carry messages");
}
static void rlog() {   // writing to the log of the counterparty
  bool allow = sx_choose(2, "allow"), need = sx_choose(2, "need"); M2MLinkOpts oa = opts(0), ob = opts(allow ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb);
  { StringBuilder l("x"); sx_assert(r.a.writeRemoteLog(&l) == -2 && l.isEmpty(), "no session"); sx_assert(r.a.writeRemoteLog(&l) == -1, "no log"); }
  r.settle(30); sx_assert(r.idle(), "live"); char t[4] = {0}; int n = 1 + sx_choose(3, "n"); for (int i = 0; i < n; i++) { t[i] = sx_u8("t"); sx_assume(t[i] != 0); }
  StringBuilder l; l.concat(t); sx_assert(r.a.writeRemoteLog(&l, need) == 0 && l.isEmpty(), "log is sent"); StringBuilder got;
  for (int i = 0; i < 40; i++) { r.a.poll(); r.b.poll(&got); r.ab.give(&r.b, 512); r.ba.give(&r.a, 512); plat_ms += 5; }
  sx_assert(r.idle() && r.a.replyTimeouts() == 0, "everything gets done");
  char ex[80]; int en0 = got.length(); sx_assert(allow == (en0 > 0), "a log is written if that is allowed"); sx_reach(allow ? "remote_log" : "log_refused");
  if (allow) { sx_assert(en0 > n + 1 && got.byteAt(en0 - 1) == '\n', "log"); for (int i = 0; i < n; i++) sx_assert(got.byteAt(en0 - 1 - n + i) == (uint8_t) t[i], "the log is what was sent"); }
}
struct Svc : public M2MService { int hits = 0; uint32_t tag = 0; M2MLink* l; bool ans; Svc(M2MLink* x, bool a) : M2MService("svc", x), l(x), ans(a) {} int8_t _handle_msg(uint32_t t, M2MMsg* m) { hits++; tag = t; if (ans && m->expectsReply()) m->ack(); return 1; } };
static void hostile() {   // any bytes for a live link
  M2MLinkOpts oa = opts(M2MLINK_FLAG_SEND_KA), ob = opts(M2MLINK_FLAG_SEND_KA | M2MLINK_FLAG_ALLOW_LOG_WRITE, 10); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); bool raw = sx_choose(2, "kind"); int pl = raw ? 0 : sx_choose(THOROUGH ? 3 : 2, "pl"); mode = raw || pl ? 2 : sx_choose(2, "mode"); int ns = raw || pl ? 1 : sx_choose(3, "ns"); Svc s0(&r.b, mode != 0), s1(&r.b, mode != 0); if (ns > 0) r.b.setCallback(&s0); if (ns > 1) { r.b.setCallback(&s1); Svc s2(&r.b, 0); sx_assert(r.b.setCallback(&s2) == -1, "slots are limited"); }
  r.settle(30); sx_assert(r.idle(), "live"); uint8_t x[16]; int n = 0, code = -1; en = 0;
  if (raw) { int L = THOROUGH ? 6 : 5; for (; n < L; n++) x[n] = sx_u8("x"); }
  else { code = sx_u8("code"); bool need = sx_choose(2, "need"); x[0] = code; x[1] = need ? 0x51 : 0x10; x[2] = 4 + need + pl; n = 3; if (need) { x[n] = sx_u8("id"); sx_assume(x[n]); n++; } x[n] = x[0] + x[1] + x[2] + 1; n++; for (int i = 0; i < pl; i++) x[n++] = sx_u8("p"); }
  r.ba.n = r.ab.n = 0; { StringBuilder s; s.concat(x, n); sx_assert(r.b.pushBuffer(&s) == 1 && s.isEmpty(), "a link takes all input"); }
  for (int i = 0; i < 3; i++) { r.b.poll(); plat_ms += 5; }
  if (code >= 0) {
    int slot = (code >= 0x10 && code <= 0x1F) ? code - 0x10 : -1; sx_assert(s0.hits == (slot == 0 && ns > 0) && s1.hits == (slot == 1 && ns > 1), "a service sees the messages for its slot, and no others"); if (s0.hits) { sx_assert(s0.tag == r.b.linkTag(), "tag"); sx_reach("svc_hit"); } if (slot > 1) sx_reach("svc_miss");
    sx_assert(en == (code == 0x0F ? 1 : 0), "the application sees its messages, and no others"); }
  if (r.b.currentState() == St::PENDING_HANGUP || r.b.currentState() == St::HUNGUP) return;
  int k = 0; for (; k < 90 && !(k > 2 && r.idle() && !r.ab.n && !r.ba.n); k++) r.round();
  if (r.b.currentState() == St::PENDING_HANGUP || r.b.currentState() == St::HUNGUP) return;
  sx_assert(r.idle(), "the link recovers from any input"); sx_reach("junk_ok");
}
static void scan() {   // sync is found, wherever it is
  M2MLinkOpts oa = opts(0); M2MLink a(&oa); Wire w; a.setEfferant(&w); a.setCallback(cb); a.poll(); a.poll(); sx_assert(a.currentState() == St::SYNC_RESYNC && w.n == 4 && w.b[0] == 1 && w.b[1] == 0x11 && w.b[2] == 4 && w.b[3] == 0x17, "a link that wants sync casts it"); w.n = 0;
  uint8_t x[16]; int pre = sx_choose(6, "pre"), n = pre; for (int i = 0; i < pre; i++) { x[i] = sx_u8("x"); sx_assume(x[i] != 1); } bool rep = sx_choose(2, "rep"); x[n++] = 1; x[n++] = rep ? 0x12 : 0x11; x[n++] = 4; x[n++] = x[0 + pre] + x[1 + pre] + 5;
  int c1 = sx_choose(n + 1, "c1"), c2 = c1 + sx_choose(n - c1 + 1, "c2"); int cut[4] = {0, c1, c2, n}; if (c1 > pre && c1 < n) sx_reach("straddle");
  for (int i = 0; i < 3; i++) { StringBuilder s; if (cut[i+1] > cut[i]) { s.concat(x + cut[i], cut[i+1] - cut[i]); a.pushBuffer(&s); a.poll(); if (cut[i+1] < n) sx_assert(w.n == 0, "nothing is answered before its time"); } }
  if (rep) sx_assert(a.currentState() == St::SYNC_TENTATIVE && w.n >= 7, "a reply to our sync is found, and the session is requested");
  else { bool ans = false; for (int i = 0; i + 4 <= w.n; i += 4) if (w.b[i] == 1 && w.b[i+1] == 0x12 && w.b[i+2] == 4 && w.b[i+3] == 0x18) ans = true; sx_assert(ans && a.currentState() == St::SYNC_RESYNC, "sync that asks for a reply gets it"); }
  sx_reach("found");
}

static void auth() {   // a link that requires authentication is not live without it
  M2MLinkOpts oa = opts(M2MLINK_FLAG_SEND_KA | M2MLINK_FLAG_AUTH_REQUIRED), ob = opts(0); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); int t = sx_choose(10, "t"), kind = sx_choose(3, "kind"); sx_assert(r.a.requireAuth() && !r.b.requireAuth(), "options");
  for (int i = 0; i < 40; i++) { if (i == t) { if (kind == 0) r.ba.b[r.ba.n++] = sx_u8("g"); else { static const uint8_t R[7] = {2, 0xD2, 7, 0x42, 0x93, 0x8B, 0xDC}; for (int q = 0; q < kind; q++) { memcpy(r.ba.b + r.ba.n, R, 7); r.ba.n += 7; } } }
    r.round(); sx_assert(r.a.currentState() != St::LIVE, "a link that requires authentication is not live without it"); }
  sx_reach("auth");
}
static void flood() {   // more than the link will queue, or more than the MTU
  M2MLinkOpts oa = opts(0), ob = opts(0, 24); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); mode = 0; r.settle(30); sx_assert(r.idle(), "live"); en = 0; uint8_t v = sx_u8("v");
  bool big = sx_choose(2, "big"); char t[40]; memset(t, 'x', 39); t[39] = 0; KeyValuePair kb("s", t); KeyValuePair kv("v", (uint32_t) v);
  if (big) { sx_assert(r.a.send(&kb) == 0, "send"); } else for (int i = 0; i < 6; i++) sx_assert(r.a.send(&kv) == 0, "send");
  for (int i = 0; i < 12; i++) { r.a.poll(); plat_ms++; } r.ab.give(&r.b, 512); r.settle(60); sx_assert(big ? en == 0 : en == 6, big ? "messages beyond the MTU are refused" : "messages that arrive together are all received"); sx_reach(big ? "over_mtu" : "flood");
  if (big) { for (int i = 0; i < 60; i++) r.round(); en = 0; mode = 2; sx_assert(r.a.send(&kv, true) > 0, "send"); r.round(); r.settle(60); sx_assert(r.idle() && en >= 1, "the link recovers"); }
}
static void limits() {   // messages as long as the MTU, and messages that are not valid
  M2MLinkOpts oa = opts(0), ob = opts(0, 24); Rig r(&oa, &ob); r.a.setCallback(cb); r.b.setCallback(cb); mode = 0; r.settle(30); sx_assert(r.idle(), "live"); en = 0; r.ab.n = r.ba.n = 0; uint8_t x[40];
  if (sx_choose(2, "mtu")) {
    int L = 22 + sx_choose(4, "L"), n = 0; x[n++] = 0x0F; x[n++] = 0x10; x[n++] = L; x[n++] = 0x0F + 0x10 + L + 1; x[n++] = 0xA1; x[n++] = 0x61; x[n++] = 's'; x[n++] = 0x60 + (L - 8); while (n < L) { x[n] = sx_u8("t"); sx_assume(x[n] >= 'a' && x[n] <= 'z'); n++; }
    int cut = sx_choose(3, "cut"); int c = cut == 0 ? L : cut == 1 ? 4 : 9; StringBuilder s; s.concat(x, c); r.b.pushBuffer(&s); r.b.poll(); if (c < L) { s.concat(x + c, L - c); r.b.pushBuffer(&s); } for (int i = 0; i < 3; i++) { r.b.poll(); plat_ms += 5; }
    sx_assert(en == (L <= 24 ? 1 : 0), "messages up to the MTU are received"); if (L == 24) sx_reach("at_mtu"); return;
  }
  int bad = 0, most = 0, good = 0, N = 5; for (int i = 0; i < N; i++) {
    bool ok = sx_choose(2, "ok"); uint8_t code = ok ? 0x0F : 0x80; if (ok) { good++; bad = 0; } else if (++bad > most) most = bad; uint8_t h[4] = {code, 0x10, 4, (uint8_t) (code + 0x10 + 4 + 1)}; StringBuilder s; s.concat(h, 4); r.b.pushBuffer(&s); r.b.poll(); r.b.poll(); plat_ms += 1;
    if (most < 3) sx_assert(r.b.currentState() == St::LIVE && en == good, "a few messages that are not valid cost only themselves"); else { r.settle(90); r.round(); r.settle(90); sx_assert(r.idle(), "the link recovers from more"); sx_reach("desynced"); return; }
  }
  if (most) sx_reach("tolerated");
}
int sx_main() {
  plat_ms_direct = 1; plat_ms = 1000; uint32_t heap = sx_heap_bytes();
  switch (sx_choose(10, "part")) { case 0: noise(); break; case 1: talk(); break; case 2: loss(); break; case 3: bye(); break; case 4: rlog(); break; case 5: hostile(); break; case 6: scan(); break; case 7: auth(); break; case 8: limits(); break; default: flood(); }
  sx_assert(sx_heap_bytes() == heap, "links release all that they took");
  return 0;
}

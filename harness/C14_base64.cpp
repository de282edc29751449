//@ reach: encoded pad1 pad2 chunked short full decoded invalid roundtrip small room null
//@ bounds: encoding of every content of up to 7 bytes in two fragments, chunk lengths of 0 to 4 and negative ones, with an end that announces any number of bytes; decoding of every text of up to 6 bytes and of 8 bytes that begin with valid ones; decoding chunks of 0, 4 and 5 bytes; encoder feeding decoder for contents of up to 3 (thorough 4) bytes
//@ outside: ends that take less than they announce; longer contents (the groups of 3 and 4 bytes are independent of each other)
#include "taker.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
static uint8_t sym(uint8_t v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'; }
static int val(uint8_t c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1; }
static int ref_enc(const uint8_t* p, int n, uint8_t* o) {
  int k = 0; for (int i = 0; i < n; i += 3) { uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); 
    o[k++] = v >> 18; o[k++] = v >> 12 & 63; o[k++] = i + 1 < n ? v >> 6 & 63 : 64; o[k++] = i + 2 < n ? v & 63 : 64; }
  return k;
}
static void encode() {
  Taker t; t.avail = (int32_t) sx_u32("avail"); sx_assume(t.avail >= 0); int32_t a0 = t.avail; Base64Encoder e; int32_t chunk = (int) sx_choose(6, "chunk") - 1; 
  uint8_t raw[8]; int n = sx_choose(THOROUGH ? 8 : 7, "n"), cut = sx_choose(n + 1, "cut"); sx_bytes(raw, n, "raw"); StringBuilder src; if (cut) src.concat(raw, cut); if (n - cut) src.concat(raw + cut, n - cut);
  sx_assert(e.bufferAvailable() == 0 && e.pushBuffer(&src) == -1 && src.length() == n, "without an end nothing is taken"); e.setEfferant(&t); e.inputLength(chunk); sx_assert(e.inputLength() == chunk, "chunk length is kept");
  int take = chunk == 0 ? n : chunk; bool fits = take > 0 && take <= n && sx_branch((take + 2) / 3 * 4 <= a0);
  int av = e.bufferAvailable(); sx_assert(av >= 0 && (int64_t) av / 3 * 4 <= a0, "what an encoder announces fits once encoded"); if (take > 0 && take <= n) sx_assert((av >= take) == fits, "an encoder announces what fits");
  int8_t rc = e.pushBuffer(&src);
  if (!fits) { sx_assert(rc == -1 && src.length() == n && t.n == 0, "what does not fit is not taken"); for (int i = 0; i < n; i++) sx_assert(src.byteAt(i) == raw[i], "what is not taken stays"); sx_reach(take > n ? "short" : "full"); }
  else {
    sx_assert(rc == (take == n ? 1 : 0) && src.length() == n - take, "a chunk is taken"); for (int i = take; i < n; i++) sx_assert(src.byteAt(i - take) == raw[i], "the rest stays");
    uint8_t want[16]; int k = ref_enc(raw, take, want); sx_assert(t.n == k, "every 3 bytes become 4"); for (int i = 0; i < k; i++) sx_assert(t.got[i] == (want[i] == 64 ? '=' : sym(want[i])), "content is encoded per RFC 4648");
    sx_reach("encoded"); if (take % 3 == 2) sx_reach("pad1"); if (take % 3 == 1) sx_reach("pad2"); if (take < n) sx_reach("chunked");
  }
  sx_assert(e.pushBuffer(nullptr) == -1, "no buffer is refused"); sx_reach("null");
}
static void decode() {
  Taker t; t.avail = (int32_t) sx_u32("avail"); sx_assume(t.avail >= 0); int32_t a0 = t.avail; Base64Decoder d; static const int C[] = {0, 4, 5}; int chunk = C[sx_choose(3, "chunk")];
  static const int N[] = {0, 1, 3, 4, 5, 8, 12}; int ni = sx_choose(THOROUGH ? 7 : 6, "n"), n = N[ni]; uint8_t raw[16]; int fix = n == 8 ? 5 : n == 12 ? 9 : 0; for (int i = 0; i < fix; i++) raw[i] = sym(i * 7 + 3); sx_bytes(raw + fix, n - fix, "raw");
  StringBuilder src; int cut = n ? sx_choose(2, "cut") * (n / 2) : 0; if (cut) src.concat(raw, cut); if (n - cut) src.concat(raw + cut, n - cut);
  sx_assert(d.bufferAvailable() == 0 && d.pushBuffer(&src) == -1 && src.length() == n, "without an end nothing is taken"); d.setEfferant(&t); d.inputLength(chunk); sx_assert(d.inputLength() == chunk, "chunk length is kept");
  int take = chunk == 0 ? n : chunk; bool ok = take > 0 && take <= n && take % 4 == 0; int pad = 0;
  if (ok) { for (int i = 0; i < take; i++) { if (sx_branch(val(raw[i]) >= 0)) { if (pad) ok = false; } else if (sx_branch(raw[i] == '=') && i >= take - 2) pad++; else ok = false; if (!ok) break; } }
  int av = d.bufferAvailable(); sx_assert(av >= 0 && (int64_t) av / 4 * 3 <= a0, "what a decoder announces fits once decoded"); bool room = ok && sx_branch(take / 4 * 3 <= a0); if (room) sx_assert(av >= take, "a decoder announces what fits"); if (ok && !room) sx_reach("room");
  int8_t rc = d.pushBuffer(&src);
  if (!room) { sx_assert(rc == -1 && t.n == 0 && src.length() == n, "what is not Base64, or does not fit, is refused"); for (int i = 0; i < n; i++) sx_assert(src.byteAt(i) == raw[i], "what is refused stays"); if (!ok && take && take <= n) sx_reach("invalid"); return; }
  sx_assert(rc == (take == n ? 1 : 0) && src.length() == n - take, "a chunk is taken"); for (int i = take; i < n; i++) sx_assert(src.byteAt(i - take) == raw[i], "the rest stays");
  sx_assert(t.n == take / 4 * 3 - pad, "every 4 characters become 3 bytes");
  for (int i = 0; i < take; i += 4) { uint32_t v = 0; for (int j = 0; j < 4; j++) v = v << 6 | (i + j < take - pad ? (uint32_t) val(raw[i + j]) : 0); for (int j = 0; j < 3; j++) { int o = i / 4 * 3 + j; if (o < t.n) sx_assert(t.got[o] == (uint8_t) (v >> (16 - 8 * j)), "content is decoded per RFC 4648"); } }
  sx_reach("decoded");
}
static void both() {
  Taker t; t.avail = sx_choose(8, "avail"); int32_t a0 = t.avail; Base64Decoder d(&t); Base64Encoder e(&d); uint8_t raw[8]; int n = 1 + sx_choose(THOROUGH ? 4 : 3, "n"); sx_bytes(raw, n, "raw"); StringBuilder src; src.concat(raw, n);
  int8_t rc = e.pushBuffer(&src); bool fits = (n + 2) / 3 * 3 <= a0;
  if (fits) { sx_assert(rc == 1 && src.isEmpty() && t.n == n, "a round trip is whole"); for (int i = 0; i < n; i++) sx_assert(t.got[i] == raw[i], "a round trip gives the content"); sx_reach("roundtrip"); }
  else { sx_assert(rc == -1 && src.length() == n && t.n == 0, "a round trip that does not fit leaves all as it was"); sx_reach("small"); }
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(3, "part")) { case 0: encode(); break; case 1: decode(); break; default: both(); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: done
//@ bounds: and texts of 22 to 66000 bytes and of 300 values at once, in pieces of 1 to 5000 bytes
#include "taker.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
#include "C3PValue/KeyValuePair.h"
static char* text; static int len, cb_n, nv; static uint8_t mark;
static void cb(C3PValue* v) {
  sx_assert(v != nullptr && cb_n < nv, "no value is invented");
  if (text) { char* s = nullptr; sx_assert(v->tcode() == TCode::STR && 0 == v->get_as(&s) && s && (int) strlen(s) == len && 0 == memcmp(s, text, len), "values are delivered as they were pushed, in order"); }
  else { uint64_t u = 0; sx_assert(0 == v->get_as(&u) && u == (uint64_t) (cb_n % 50 == 7 ? mark : cb_n * 251), "values are delivered as they were pushed, in order"); }
  cb_n++; delete v;
}
int sx_main() {
  sx_budget(1400000000); uint32_t heap0 = sx_heap_bytes(); mark = sx_u8("mark"); cb_n = 0; text = nullptr; static const int LEN[] = {22, 23, 24, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 66000}; static const int PC[] = {1, 255, 256, 5000, 70000};
  const int part = sx_choose(2, "part"), k = part ? sx_choose(12, "len") : 0; int pc = sx_choose(5, "piece"); if (part && ((LEN[k] > 60000 && pc < 3) || (LEN[k] == 1000 && pc == 0))) return 0;
  { StringBuilderSink wire(140000); C3PTypePipeSource src(TCode::CBOR, &wire); C3PTypePipeSink sink(TCode::CBOR, 140000, cb);
    if (part) { len = LEN[k]; nv = 2; text = (char*) malloc(len + 1); for (int i = 0; i < len; i++) text[i] = 'a' + i % 23; text[len] = 0; uint8_t m = mark; sx_assume(m != 0); text[len - 1] = m; for (int i = 0; i < 2; i++) sx_assert(0 == (i ? src.pushValue(text) : src.pushValue((const char*) text)), "a value that fits is pushed"); int hd = len < 24 ? 1 : len < 256 ? 2 : len < 65536 ? 3 : 5; sx_assert((int) wire.length() == 2 * (len + hd) && src.byteCount() == (uint32_t) wire.length(), "bytes are counted"); }
    else { nv = 300; for (int i = 0; i < nv; i++) sx_assert(0 == src.pushValue((uint32_t) (i % 50 == 7 ? mark : i * 251)), "a value that fits is pushed"); sx_assert(src.byteCount() == (uint32_t) wire.length(), "bytes are counted"); }
    const int total = wire.length(); StringBuilder in; while (wire.length()) { StringBuilder p; p.concatHandoffLimit(&wire, PC[pc]); in.concatHandoff(&p); sink.pushBuffer(&in); if (wire.length()) sx_assert(in.length() <= (text ? len + 5 : 5), "whole values are taken"); }
    sx_assert(cb_n == nv && in.isEmpty() && sink.byteCount() == (uint32_t) total, "every whole value is delivered at once, and only once"); if (text) free(text); text = nullptr; sx_reach("done"); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned"); return 0;
}

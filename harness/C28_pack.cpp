//@ reach: packed tagged empty hostile inkvp
//@ bounds: watches with every tag and up to 2 measurements of every length, alone or in a key-value list; maps of 1 to 3 of its keys (case varied) with values of 7 kinds
//@ outside: BINARY encoding (not implemented)
#include "plat.h"
#include "TimerTools/TimerTools.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "cbor-cpp/cbor.h"
static void pack() {
  uint32_t heap0 = sx_heap_bytes(); {
  uint32_t tag = sx_choose(2, "tagged") ? sx_u32("tag") : 0, t[2] = {}; StopWatch sw(tag); int n = sx_choose(3, "n"); for (int i = 0; i < n; i++) { t[i] = i || THOROUGH ? sx_u32("t") : sx_u8("t8"); sx_assume(t[i] < 0x7fffffff); sw.addRuntime(0, t[i]); }
  StringBuilder out; bool in = sx_choose(2, "kvp"); StopWatch* b = nullptr; C3PValue* v = nullptr; KeyValuePair* k = nullptr;
  if (in) { KeyValuePair kv("w", &sw); sx_assert(0 <= kv.serialize(&out, TCode::CBOR), "a watch in a list can be packed"); v = C3PValue::deserialize(&out, TCode::CBOR); k = (KeyValuePair*) v; sx_assert(k && 0 == strcmp(k->getKey(), "w") && k->tcode() == TCode::STOPWATCH && 0 == k->get_as(&b) && b, "unpacked from a list"); sx_reach("inkvp"); }
  else { C3PValue src(&sw); sx_assert(0 <= src.serialize(&out, TCode::CBOR), "a watch can be packed"); v = C3PValue::deserialize(&out, TCode::CBOR); sx_assert(v && out.length() == 0 && v->tcode() == TCode::STOPWATCH && 0 == v->get_as(&b) && b, "unpacked"); }
  sx_assert(b != &sw, "an unpacked watch is another"); sx_assert(b->tag() == tag && b->executions() == (uint32_t) n && b->totalTime() == t[0] + t[1] && b->lastTime() == (n ? t[n - 1] : 0), "tag, count, total and last of an unpacked watch");
  sx_assert(b->bestTime() == sw.bestTime() && b->worstTime() == sw.worstTime() && b->meanTime() == sw.meanTime() && !b->markStop(), "extremes and mean of an unpacked watch; it does not run");
  b->addRuntime(5, 15); sx_assert(b->executions() == (uint32_t) n + 1 && b->totalTime() == t[0] + t[1] + 10 && b->lastTime() == 10, "an unpacked watch can be continued");
  if (tag) sx_reach("tagged"); if (!n) sx_reach("empty"); sx_reach("packed"); if (v) delete v;
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
static void hostile() {
  uint32_t heap0 = sx_heap_bytes(); {
  uint8_t m[64]; uint32_t o = 0; int keys = 1 + sx_choose(THOROUGH ? 3 : 2, "keys"); m[o++] = 0xD9; m[o++] = (uint8_t) (C3P_CBOR_VENDOR_CODE >> 8); m[o++] = TcodeToInt(TCode::STOPWATCH); m[o++] = 0xA0 | keys; static const char K[] = "getTawBlz";
  uint32_t ex = 0; bool got = false;
  for (int i = 0; i < keys; i++) { m[o++] = 0x61; uint8_t k = m[o++] = K[sx_choose(9, "key")]; bool e = k == 'e'; switch (sx_choose(7, "kind")) {
      case 0: m[o++] = 0x18; m[o] = sx_u8("v"); if (e) { ex = m[o]; got = true; } o++; break; case 1: { uint32_t v = sx_u32("v"); m[o++] = 0x1A; m[o++] = v >> 24; m[o++] = v >> 16; m[o++] = v >> 8; m[o++] = v; if (e) { ex = v; got = true; } break; }
      case 2: m[o++] = 0x20; if (e) got = true, ex = 1; if (e) sx_end(); break; case 3: m[o++] = 0x61; m[o++] = 'x'; if (e) sx_end(); break; case 4: m[o++] = 0xF5; if (e) sx_end(); break; case 5: m[o++] = 0x82; m[o++] = 1; m[o++] = 2; if (e) sx_end(); break; default: m[o++] = 0x41; m[o++] = sx_u8("b"); if (e) sx_end(); } }
  StringBuilder in; in.concat(m, o); C3PValue* v = C3PValue::deserialize(&in, TCode::CBOR);
  if (v) { StopWatch* b = nullptr; if (v->tcode() == TCode::STOPWATCH && 0 == v->get_as(&b) && b) { if (got) sx_assert(b->executions() == ex, "the fields of a watch are those of the record"); b->addRuntime(1, 3); sx_assert(b->lastTime() == 2, "it can be used"); sx_reach("hostile"); } delete v; }
  } sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
int sx_main() { if (sx_choose(2, "what")) hostile(); else pack(); return 0; }

//@ reach: delivered split oversize refused text vector pair wide partial null counted through unwritable
//@ bounds: up to 2 (thorough 3) values of 11 kinds (boolean, integers of both signs and every width, float, double, text of up to 3 bytes, vector, pair of key and integer), every value; delivered to the sink in up to 3 pushes cut at any byte; sink buffers of every size from 1 to 12 and ample ones; ends that announce any number of bytes
//@ outside: other formats than CBOR beyond whether a value is pushed; bytes that are not CBOR (C11); ends that take less than they announce; values longer than the buffer of the sink, which hold up the pipe by design
#include "taker.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
#include "C3PValue/KeyValuePair.h"
struct Val { int k; uint64_t v; double d; float f; char s[4]; float x[3]; int len; };
static Val vals[4]; static int nv, cb_n; static bool count_only;
static bool same(Val& a, C3PValue* v) {
  switch (a.k) {
    case 0: { bool b; return v->tcode() == TCode::BOOLEAN && 0 == v->get_as(&b) && b == (a.v & 1); }
    case 1: case 2: case 3: case 4: { uint64_t u; return v->is_numeric() && 0 == v->get_as(&u) && u == a.v; }
    case 5: case 6: case 7: { int64_t u; return v->is_numeric() && 0 == v->get_as(&u) && u == (int64_t) a.v; }
    case 8: { float f; return v->tcode() == TCode::FLOAT && 0 == v->get_as(&f) && 0 == memcmp(&f, &a.f, 4); }
    case 9: { double f; return v->tcode() == TCode::DOUBLE && 0 == v->get_as(&f) && 0 == memcmp(&f, &a.d, 8); }
    case 10: { char* s = nullptr; return v->tcode() == TCode::STR && 0 == v->get_as(&s) && s && 0 == strcmp(s, a.s); }
    case 11: { Vector3f w; return v->tcode() == TCode::VECT_3_FLOAT && 0 == v->get_as(&w) && 0 == memcmp(&w.x, a.x, 4) && 0 == memcmp(&w.y, a.x + 1, 4) && 0 == memcmp(&w.z, a.x + 2, 4); }
    default: { if (v->tcode() == TCode::KVP) { KeyValuePair* k = nullptr; if (0 != v->get_as(&k) || !k) return false; v = k; } if (!v->has_key()) return false; KeyValuePair* k = (KeyValuePair*) v; uint64_t u; return k->getKey() && 0 == strcmp(k->getKey(), "k") && 0 == k->get_as(&u) && u == a.v; }
  }
}
static void cb(C3PValue* v) {
  sx_assert(v != nullptr, "a value is delivered"); sx_assert(cb_n < nv, "no value is invented"); sx_assert(same(vals[cb_n], v), "values are delivered as they were pushed, in order"); cb_n++; delete v; sx_reach("delivered");
}
static void draw(Val& a) {
  a.v = 0; a.len = 0;
  switch (a.k) {
    case 0: a.v = sx_u8("b") & 1; break;
    case 1: a.v = sx_u8("u"); break;
    case 2: a.v = sx_u16("u"); break;
    case 3: a.v = sx_u32("u"); break;
    case 4: a.v = sx_u64("u"); sx_reach("wide"); break;
    case 5: a.v = (uint64_t) (int64_t) (int8_t) sx_u8("i"); break;
    case 6: a.v = (uint64_t) (int64_t) (int32_t) sx_u32("i"); break;
    case 7: a.v = sx_u64("i"); break;
    case 8: sx_bytes(&a.f, 4, "f"); break;
    case 9: sx_bytes(&a.d, 8, "d"); break;
    case 10: { int n = sx_choose(4, "n"); for (int i = 0; i < n; i++) { a.s[i] = sx_u8("c"); sx_assume(a.s[i] != 0); } a.s[n] = 0; sx_reach("text"); a.len = sx_choose(2, "const"); } break;
    case 11: sx_bytes(a.x, 12, "x"); sx_reach("vector"); break;
    default: a.v = sx_u16("kv"); sx_reach("pair"); break;
  }
}
static int8_t give(C3PTypePipeSource& s, Val& a) {
  switch (a.k) {
    case 0: return s.pushValue((bool) a.v);
    case 1: return s.pushValue((uint8_t) a.v);
    case 2: return s.pushValue((uint16_t) a.v);
    case 3: return s.pushValue((uint32_t) a.v);
    case 4: return s.pushValue((uint64_t) a.v);
    case 5: return s.pushValue((int8_t) a.v);
    case 6: return s.pushValue((int32_t) a.v);
    case 7: return s.pushValue((int64_t) a.v);
    case 8: return s.pushValue(a.f);
    case 9: return s.pushValue(a.d);
    case 10: return a.len ? s.pushValue((const char*) a.s) : s.pushValue((char*) a.s);
    case 11: { Vector3f w(a.x[0], a.x[1], a.x[2]); C3PValue v(&w); return s.pushValue(&v); }
    default: { KeyValuePair k("k", (uint16_t) a.v); return s.pushValue(&k); }
  }
}
static int8_t push(C3PTypePipeSource& s, Val& a) { draw(a); return give(s, a); }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(3, "part")) {
    case 2: {
      static const TCode F[] = { TCode::STR, TCode::BINARY, TCode::NONE, TCode::CBOR, TCode::UINT8, TCode::INVALID }; const int fi = sx_choose(6, "format"); StringBuilderSink wire(64); C3PTypePipeSource src(F[fi], &wire); int8_t r; StringBuilder direct; int want;
      const int what = sx_choose(4, "value"); const uint32_t u = 100000 + sx_choose(2, "v"); 
      if (what == 0) { C3PValue v(u); want = v.serialize(&direct, F[fi]); r = src.pushValue(&v); }
      else if (what == 1) { KeyValuePair k("k", u); want = k.serialize(&direct, F[fi]); r = src.pushValue(&k); }
      else if (what == 2) { C3PValue v(TCode::NONE); want = v.serialize(&direct, F[fi]); r = src.pushValue(&v); }
      else { C3PValue v(u); want = v.serialize(&direct, F[fi]); r = src.pushValue(u); }
      sx_assert((r == 0) == (want == 0), "a value that can not be written in the format is refused, and one that can is pushed"); sx_assert(wire.length() == (r ? 0 : direct.length()) && src.byteCount() == (uint32_t) wire.length(), "a value is pushed whole or not at all"); if (r) sx_reach("unwritable");
      sx_assert(src.pushValue((C3PValue*) nullptr) != 0 && src.pushValue((KeyValuePair*) nullptr) != 0, "no value is refused"); C3PTypePipeSource none(F[fi]); C3PValue v(u); KeyValuePair k("k", u); sx_assert(none.pushValue(&v) != 0 && none.pushValue(&k) != 0 && none.pushValue(u) != 0 && none.byteCount() == 0, "a source without an end pushes nothing");
    } break;
    case 0: {
      StringBuilderSink wire(4096); C3PTypePipeSource src(TCode::CBOR, &wire); nv = 1 + sx_choose(THOROUGH ? 3 : 2, "n"); cb_n = 0; int total = 0;
      for (int i = 0; i < nv; i++) { vals[i].k = i == 2 ? 1 : sx_choose(13, "kind"); int8_t r = push(src, vals[i]); int l = wire.length(); sx_assert(r == 0, "a value that fits is pushed"); vals[i].len = l - total; total = l; sx_assert(src.byteCount() == (uint32_t) total, "bytes are counted"); }
      sx_reach("counted");
      int cap = sx_choose(2, "small") ? 1 + (int) sx_choose(12, "cap") : 64; C3PTypePipeSink sink(TCode::CBOR, cap, cb); sx_assert(sink.bufferAvailable() == cap, "the sink announces its buffer"); StringBuilder in; int given = 0, pieces = 0;
      while (wire.length()) {
        int L = wire.length(); int k = pieces < 2 ? 1 + (int) sx_choose(L, "cut") : L; pieces++; StringBuilder part; part.concatHandoffLimit(&wire, k); in.concatHandoff(&part); given += k; int before = in.length();
        int8_t rc = sink.pushBuffer(&in); int after = in.length(); sx_assert(rc == rc_of(before, after), "a sink reports nothing, part or all taken as it is");
        int whole = 0, off = 0; while (whole < nv && vals[whole].len <= cap && off + vals[whole].len <= given) off += vals[whole++].len;
        sx_assert(cb_n == whole, "every whole value is delivered at once, and only once"); sx_assert(after == given - off, "exactly the delivered values are taken"); sx_assert(sink.byteCount() == (uint32_t) off, "taken bytes are counted");
        if (whole < nv && vals[whole].len > cap) { sx_reach("oversize"); break; } if (after) sx_reach("partial"); if (pieces > 1) sx_reach("split");
      }
      sx_assert(sink.pushBuffer(nullptr) == -1, "no buffer is refused"); sx_reach("null");
    } break;
    default: {
      Taker t; t.avail = (int32_t) sx_u32("avail"); sx_assume(t.avail >= 0); int32_t a0 = t.avail; bool have = sx_choose(4, "end"); C3PTypePipeSource src(TCode::CBOR, have ? &t : nullptr);
      StringBuilderSink wire(4096); C3PTypePipeSource ref(TCode::CBOR, &wire); vals[0].k = sx_choose(13, "kind"); 
      if (sx_choose(3, "raw") == 0) { uint8_t raw[4]; int n = 1 + sx_choose(3, "n"); sx_bytes(raw, n, "raw"); StringBuilder b; b.concat(raw, n); int8_t r = src.pushBuffer(&b); sx_assert(r == (have ? rc_of(n, b.length()) : -1) && t.n + b.length() == n, "buffers pass through"); for (int i = 0; i < n; i++) sx_assert((i < t.n ? t.got[i] : b.byteAt(i - t.n)) == raw[i], "buffers pass through"); sx_reach("through"); break; }
      draw(vals[0]); sx_assert(0 == give(ref, vals[0]), "a value that fits is pushed"); int need = wire.length(); int8_t r = give(src, vals[0]); int n = t.n;
      if (r == 0) { sx_assert(have && n == need && a0 >= n && src.byteCount() == (uint32_t) n && t.pushes == 1, "a pushed value is whole"); StringBuilder b; b.concat(t.got, n); nv = 1; cb_n = 0; C3PTypePipeSink sink(TCode::CBOR, 64, cb); sx_assert(sink.pushBuffer(&b) == 1 && cb_n == 1, "a pushed value is whole"); }
      else { sx_assert(n == 0 && src.byteCount() == 0, "a value is pushed whole or not at all"); sx_assert(!have || a0 < need, "a value that fits is pushed"); sx_reach("refused"); }
    } break;
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

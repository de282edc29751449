//@ reach: shown saved loaded pointer builder fragmented trailing prefixed empty longname changed corrupted wrongtag hostile accepted refused truncated again
//@ bounds: payloads of up to 3 bytes, of which one is arbitrary (all of them where the descriptor is), every tag, names of 1 to 16 bytes and of 17, 40, 256 and 300; in front of which the buffer holds up to 2 bytes, and after which it holds up to 2; from memory, and from a builder split anywhere in the descriptor or payload; every alteration of one byte of the payload; and every descriptor of 40 arbitrary bytes with up to 3 bytes after it, or cut short at 0, 1, 7, 39 bytes
//@ outside: alterations of more than one byte, which a 32-bit hash can miss; the timestamp, which nothing sets; the asynchronous DataRecord, whose load is not implemented
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Storage/Storage.h"
class R : public SimpleDataRecord {
  public:
    uint8_t p[8]; int n, fail;
    R() : SimpleDataRecord(0, StorageRecordType::C3POBJ_ON_ICE), n(0), fail(0) { memset(p, 0, sizeof(p)); }
    int8_t serialize(StringBuilder* o, TCode f) { if (fail || f != TCode::CBOR) return -1; if (n) o->concat(p, n); return 0; }
    int8_t deserialize(StringBuilder* i, TCode f) { if (fail || f != TCode::CBOR) return -1; sx_assert(i->length() <= 8, "payload as long as declared"); n = i->length(); if (n) memcpy(p, i->string(), n); return 0; }
};
static uint32_t le(const uint8_t* b) { return b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t) b[3] << 24); }
static int8_t load(R* r, uint32_t tag, const uint8_t* b, int n, int* left = nullptr) {
  // Exact heap copies, so that any overreach is seen.
  uint8_t* m = (uint8_t*) malloc(n ? n : 1); memcpy(m, b, n); int8_t ret;
  uint32_t how = sx_choose(3, "how");
  if (how == 0) { ret = r->load(tag, m, n); sx_reach("pointer"); }
  else {
    StringBuilder sb; int k = 0;
    if (how == 2 && n > 1) { static const uint8_t at[] = { 1, 4, 8, 24, 39, 40, 41 }; k = at[sx_choose(7, "cut")]; if (k >= n) k = 1; sb.concat(m, k); sx_reach("fragmented"); }
    if (n - k > 0) sb.concat(m + k, n - k);
    ret = r->load(tag, &sb); sx_reach("builder");
  }
  free(m); return ret;
}
static void body() {
  R a; uint32_t tag = sx_u32("tag");
  uint32_t part = sx_choose(3, "part");
  a.n = sx_choose(4, "len"); int pos = -1;
  if (part == 2 || a.n == 0) sx_bytes(a.p, a.n, "payload");
  else { for (int i = 0; i < a.n; i++) a.p[i] = 0x31 + i * 0x47; pos = sx_choose(a.n, "pos"); a.p[pos] = sx_u8("byte"); } if (!a.n) sx_reach("empty");
  static const uint16_t nl[] = { 3, 1, 15, 16, 17, 40, 256, 300 };
  int nlen = nl[(part == 0 && a.n == 1) ? sx_choose(8, "name") : 0]; char* name = (char*) malloc(nlen + 1); memset(name, 'k', nlen); if (nlen > 2) { name[0] = 'A'; name[2] = 'Z'; } name[nlen] = 0; if (nlen > 16) sx_reach("longname");
  StringBuilder out; int pre = (part == 0) ? sx_choose(3, "prefix") : 0; static const uint8_t junk[] = { 0xAB, 0xCD };
  if (pre) { out.concat(junk, pre); sx_reach("prefixed"); }
  sx_assert(!a.wasLoaded(), "a new record was not loaded");
  sx_assert(0 == a.save(tag, name, &out), "a record can be saved"); sx_reach("saved");
  sx_assert(!a.isDirty(), "a saved record is clean");
  sx_assert(out.length() == pre + 40 + a.n, "a descriptor and the payload are written");
  uint8_t raw[64]; memcpy(raw, out.string() + pre, 40 + a.n); sx_assert(0 == memcmp(out.string(), junk, pre), "what was in the buffer stays in front");
  sx_assert(le(raw) == tag && raw[4] == DATARECORD_SERIALIZER_VERSION && raw[6] == (uint8_t) StorageRecordType::C3POBJ_ON_ICE && raw[7] == (uint8_t) TCode::CBOR, "tag, version, type and format are written");
  for (int i = 0; i < 16; i++) sx_assert(raw[8 + i] == (i < nlen ? (uint8_t) name[i] : 0), "the name is written");
  sx_assert(le(raw + 24) == (uint32_t) a.n, "the length of the payload is written"); sx_assert(0 == memcmp(raw + 40, a.p, a.n), "the payload is written");
  if (part == 0) {
    uint8_t m[64]; memcpy(m, raw, 40 + a.n); int x = sx_choose(3, "trailing"); if (x) { sx_bytes(m + 40 + a.n, x, "tail"); sx_reach("trailing"); }
    R b; sx_assert(0 == load(&b, tag, m, 40 + a.n + x), "what was saved can be loaded"); sx_reach("loaded");
    sx_assert(b.n == a.n && 0 == memcmp(b.p, a.p, a.n), "the payload is what was saved"); sx_assert(b.wasLoaded(), "a loaded record says so"); sx_assert(!b.isDirty(), "a loaded record is clean");
    if (b.n) { uint8_t d = sx_u8("delta"); sx_assume(d != 0); int at = pos; uint8_t was = b.p[at]; b.p[at] ^= d; sx_assert(b.isDirty(), "a changed record is dirty"); sx_reach("changed"); b.p[at] = was; sx_assert(!b.isDirty(), "a record that is as it was saved is clean"); }
    StringBuilder o2; sx_assert(0 == b.save(tag, name, &o2) && o2.length() == 40 + a.n && 0 == memcmp(o2.string(), raw, 40 + a.n), "a loaded record is saved as it was"); sx_reach("again");
  }
  else {
    R b; b.n = 2; b.p[0] = 0x5A; b.p[1] = sx_u8("own"); uint32_t otag = 0x01020304; StringBuilder ob; sx_assert(0 == b.save(otag, "own", &ob), "saved"); uint8_t own[64]; memcpy(own, ob.string(), 42);
    uint8_t m[64]; int n = 40 + a.n; memcpy(m, raw, n); uint32_t want = tag; bool bad = true;
    if (part == 1) {
      if (sx_choose(2, "kind") && a.n) { uint8_t d = sx_u8("delta"); sx_assume(d != 0); m[40 + pos] ^= d; sx_reach("corrupted"); }
      else { want = sx_u32("other"); sx_assume(want != tag); sx_reach("wrongtag"); }
    }
    else {
      static const uint8_t cut[] = { 0, 1, 7, 39 }; uint32_t c = sx_choose(5, "cut");
      if (c < 4) { n = cut[c]; sx_reach("truncated"); }
      else {
        uint8_t d[40]; sx_bytes(d, 40, "desc"); memcpy(m, d, 40); want = tag; sx_reach("hostile");
        bad = !(le(d) == tag && d[4] == DATARECORD_SERIALIZER_VERSION && d[6] == (uint8_t) StorageRecordType::C3POBJ_ON_ICE && d[7] == (uint8_t) TCode::CBOR && le(d + 24) <= (uint32_t) a.n);
      }
    }
    int8_t r = load(&b, want, m, n);
    if (bad) sx_assert(0 != r, "what is not the record asked for, whole and unaltered, is refused");
    if (0 == r) { sx_reach("accepted"); sx_assert(b.wasLoaded() && (uint32_t) b.n == le(m + 24) && 0 == memcmp(b.p, m + 40, b.n), "what is accepted is delivered as it is"); sx_assert(!b.isDirty(), "a loaded record is clean"); }
    else {
      sx_reach("refused"); sx_assert(b.n == 2 && b.p[0] == 0x5A, "the record keeps its payload"); sx_assert(!b.wasLoaded(), "a refused record was not loaded"); sx_assert(!b.isDirty(), "a refused record leaves the own one clean");
      StringBuilder o2; sx_assert(0 == b.save(otag, "own", &o2) && o2.length() == 42 && 0 == memcmp(o2.string(), own, 42), "the record can be saved as before");
    }
  }
  free(name);
}
static void shown() {
  R a; static const uint8_t nl[] = { 3, 15, 16, 40 }; int nlen = nl[sx_choose(4, "name")]; char* name = (char*) malloc(nlen + 1); memset(name, 'k', nlen); name[0] = 'A'; name[nlen] = 0; a.n = 1; a.p[0] = 7;
  StringBuilder out; sx_assert(0 == a.save(0x11223344, name, &out), "saved");
  { StringBuilder dbg; a.printDebug(&dbg); char* s = (char*) strstr((char*) dbg.string(), "Key:\t "); sx_assert(nullptr != s, "key printed"); int w = nlen < 16 ? nlen : 16; sx_assert(0 == memcmp(s + 6, name, w) && s[6 + w] == '\n', "the name is printed as it is kept"); }
  free(name); sx_reach("shown");
}
int sx_main() { uint32_t heap0 = sx_heap_bytes(); if (sx_choose(2, "show")) shown(); else body(); sx_assert(sx_heap_bytes() == heap0, "all memory returned"); return 0; }

//@ reach: scalar keyed vector string binary builder dropped unlinked reaped
//@ bounds: every constructor for scalars, vectors, strings (text up to 4 bytes), binary (up to 4 bytes) and builders, keyed and not, every value; value lists of up to 4 elements through 3 structural operations with and without destruction
//@ outside: images, identities, stopwatches and time series as contents; unlinking an element that has followers (it takes its followers with it by design)
#include "sx.h"
#include "rt_common.h"
#include "C3PValue/KeyValuePair.h"
#include "StringBuilder.h"
template <typename T> static void scalar(TCode tc, bool keyed) {
  T v, w, o; sx_bytes(&v, sizeof(T), "v"); sx_bytes(&w, sizeof(T), "w");
  char key[3] = {'k', 'e', 0};
  C3PValue* a = keyed ? (sx_choose(2, "heapkey") ? (C3PValue*) new KeyValuePair((char*) key, v) : (C3PValue*) new KeyValuePair("ke", v)) : new C3PValue(v);
  if (keyed) { key[0] = 'x'; sx_assert(a->has_key() && 0 == strcmp(((KeyValuePair*) a)->getKey(), "ke"), "the key given is kept, and copied when it may change"); sx_reach("keyed"); } else sx_assert(!a->has_key(), "no key");
  sx_assert(a->tcode() == tc && a->length() == sizeof(T) && !a->memError(), "type and length of a scalar");
  memset(&o, 0x5A, sizeof(T)); sx_assert(0 == a->get_as(&o) && 0 == memcmp(&o, &v, sizeof(T)), "a container returns the value it was built with");
  uint16_t mark = a->trace(); sx_assert(!a->dirty(&mark), "not dirty before a change");
  sx_assert(0 == a->set(w) && a->dirty(&mark) && mark == a->trace() && !a->dirty(&mark), "dirty once per observer after a change");
  memset(&o, 0x5A, sizeof(T)); sx_assert(0 == a->get_as(&o) && 0 == memcmp(&o, &w, sizeof(T)), "a container returns the value last stored");
  C3PValue c(tc); sx_assert(0 == c.set(a), "copy between containers of one type"); delete a;
  memset(&o, 0x5A, sizeof(T)); sx_assert(0 == c.get_as(&o) && 0 == memcmp(&o, &w, sizeof(T)), "a copied scalar outlives its origin");
  sx_reach("scalar");
}
static void boolean(bool keyed) {
  bool v = sx_u8("v") & 1, w = sx_u8("w") & 1, o = !v; C3PValue* a = keyed ? new KeyValuePair("b", v) : new C3PValue(v);
  sx_assert(a->tcode() == TCode::BOOLEAN && 0 == a->get_as(&o) && o == v && a->get_as_bool() == v, "boolean built with");
  sx_assert(0 == a->set(w) && 0 == a->get_as(&o) && o == w && a->get_as_bool() == w, "boolean stored"); delete a;
}
template <typename T> static void vec(TCode tc, bool keyed) {
  Vector3<T> v, w, o; sx_bytes(&v.x, sizeof(T), "x"); sx_bytes(&v.y, sizeof(T), "y"); sx_bytes(&v.z, sizeof(T), "z"); sx_bytes(&w.x, sizeof(T), "x"); sx_bytes(&w.y, sizeof(T), "y"); sx_bytes(&w.z, sizeof(T), "z");
  uint32_t h = sx_heap_bytes(); C3PValue* a = keyed ? new KeyValuePair("v", &v) : new C3PValue(&v); Vector3<T> keep; memcpy(&keep, &v, sizeof(v)); memset(&v, 0x33, sizeof(v));
  sx_assert(a->tcode() == tc && a->length() == 3 * sizeof(T), "type and length of a vector");
  sx_assert(0 == a->get_as(&o) && 0 == memcmp(&o, &keep, sizeof(o)), "a vector is held by value");
  Vector3<T> keepw; memcpy(&keepw, &w, sizeof(w)); sx_assert(0 == a->set(&w), "storing a vector"); memset(&w, 0x44, sizeof(w)); sx_assert(0 == a->get_as(&o) && 0 == memcmp(&o, &keepw, sizeof(o)), "a stored vector is held by value");
  delete a; sx_assert(sx_heap_bytes() == h, "a vector container releases what it allocated");
  uint8_t n = sx_choose(2, "len") ? 3 * sizeof(T) : sx_choose(3 * sizeof(T), "short"); uint8_t* raw = (uint8_t*) malloc(n + 1); sx_bytes(raw, n, "raw");
  C3PValue bin(raw, n); bin.reapValue(true); C3PValue d(tc); memset(&o, 0, sizeof(o)); Vector3<T> z; memset(&z, 0, sizeof(z));
  int8_t r = d.set(&bin); sx_assert((r == 0) == (n >= 3 * sizeof(T)), "a vector is made only from enough bytes"); sx_assert(0 == d.get_as(&o) && 0 == memcmp(&o, r == 0 ? (void*) raw : (void*) &z, sizeof(o)), "a vector made from bytes");
  sx_reach("vector");
}
static void structural() {
  C3PValue* e[4]; uint8_t val[4]; uint8_t n = 1 + sx_choose(4, "n"); uint8_t order[4], cnt = n;
  bool cont[4];
  for (int i = 0; i < n; i++) { val[i] = sx_u8("val"); cont[i] = i == 0 ? true : sx_choose(2, "own"); e[i] = (i & 1) ? new KeyValuePair("k", val[i]) : new C3PValue(val[i]); order[i] = i; if (i) sx_assert(e[i] == e[0]->link(e[i], cont[i]), "link returns what it linked"); }
  bool out[4] = {false, false, false, false};
  C3PValue* head = e[0]; if (head) head->reapContainer(true);
  for (int s = 0; s < 2 && head; s++) {
    sx_assert(head->count() == cnt, "count of linked values");
    for (uint32_t i = 0; i < 5; i++) { C3PValue* p = head->valueWithIdx(i); sx_assert(p == (i < cnt ? e[order[i]] : nullptr), "value by position"); uint8_t b = 0; int8_t r = head->valueWithIdx(i, &b); sx_assert((r == 0) == (i < cnt) && (r != 0 || b == val[order[i]]), "read by position"); }
    int k = sx_choose(cnt + 1, "k"); bool kill = sx_choose(2, "kill");
    if (k == cnt) { C3PValue f((uint8_t) 1); sx_assert(0 != head->drop(&head, &f, kill) && head->count() == cnt, "dropping a stranger is refused"); continue; }
    C3PValue* tgt = e[order[k]]; uint8_t id = order[k];
    if (sx_choose(2, "unlink")) {
      if (k != cnt - 1 || k == 0) continue;   // followers go along with an unlinked element; see outside
      sx_assert(0 == head->unlink(tgt, kill), "unlink"); sx_reach("unlinked");
    } else { sx_assert(0 == head->drop(&head, tgt, kill), "drop"); sx_reach("dropped"); }
    bool gone = kill && (id == 0 || cont[id]); if (!gone) { out[id] = true; sx_assert(tgt->count() == 1, "a removed element stands alone"); sx_assert(tgt->get_as_uint() == val[id], "a removed element keeps its value"); }
    for (int i = k; i + 1 < cnt; i++) order[i] = order[i + 1]; cnt--; if (!cnt) head = nullptr;
  }
  for (int i = 0; i < 4; i++) if (out[i]) delete e[i];
  if (head) { bool keep[4] = {false, false, false, false}; for (int i = 1; i < cnt; i++) if (order[i] && !cont[order[i]]) { keep[order[i]] = true; }
    // An element the chain does not own ends the chain's ownership: what follows it belongs to it.
    delete head; for (int i = 1; i < cnt; i++) if (keep[order[i]]) { delete e[order[i]]; break; } 
    bool seen = false; for (int i = 1; i < cnt; i++) { if (keep[order[i]]) { if (seen) delete e[order[i]]; seen = true; } } }
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    int k = sx_choose(23, "k"); bool keyed = k < 19 ? sx_choose(2, "keyed") : false;
    switch (k) {
      case 0: scalar<uint8_t>(TCode::UINT8, keyed); break; case 1: scalar<uint16_t>(TCode::UINT16, keyed); break; case 2: scalar<uint32_t>(TCode::UINT32, keyed); break; case 3: scalar<uint64_t>(TCode::UINT64, keyed); break;
      case 4: scalar<int8_t>(TCode::INT8, keyed); break; case 5: scalar<int16_t>(TCode::INT16, keyed); break; case 6: scalar<int32_t>(TCode::INT32, keyed); break; case 7: scalar<int64_t>(TCode::INT64, keyed); break;
      case 8: scalar<float>(TCode::FLOAT, keyed); break; case 9: scalar<double>(TCode::DOUBLE, keyed); break; case 10: boolean(keyed); break;
      case 11: vec<uint8_t>(TCode::VECT_3_UINT8, keyed); break; case 12: vec<uint16_t>(TCode::VECT_3_UINT16, keyed); break; case 13: vec<uint32_t>(TCode::VECT_3_UINT32, keyed); break;
      case 14: vec<int8_t>(TCode::VECT_3_INT8, keyed); break; case 15: vec<int16_t>(TCode::VECT_3_INT16, keyed); break; case 16: vec<int32_t>(TCode::VECT_3_INT32, keyed); break; case 17: vec<float>(TCode::VECT_3_FLOAT, keyed); break; case 18: vec<double>(TCode::VECT_3_DOUBLE, keyed); break;
      case 19: {   // strings
        char t[5]; int n = sx_choose(5, "n"); for (int i = 0; i < n; i++) { t[i] = sx_u8("t"); sx_assume(t[i]); } t[n] = 0; char orig[5]; memcpy(orig, t, 5);
        bool copy = sx_choose(2, "copy"); C3PValue* a = copy ? new C3PValue((char*) t) : new C3PValue((const char*) t); if (copy) t[0] = '!';
        char* o = nullptr; sx_assert(a->tcode() == TCode::STR && 0 == a->get_as(&o) && 0 == strcmp(o, orig), "a string is held, and copied when it may change"); sx_assert(copy == (o != t), "a constant string is held by reference"); sx_assert(a->length() == (uint32_t) n + 1, "length of a string");
        StringBuilder sb; sb.concat('<'); StringBuilder* sp = &sb; sx_assert(0 == a->get_as(TCode::STR_BUILDER, &sp) && sb.length() == n + 1 && 0 == memcmp(sb.string() + 1, orig, n), "a string appends itself to a builder");
        StringBuilder pr; a->toString(&pr); sx_assert(pr.length() == n && 0 == memcmp(pr.string(), orig, n), "a string prints as itself");
        const char* lit = "new"; if (!copy) { sx_assert(0 == a->set(lit) && 0 == a->get_as(&o) && o == lit, "a string stored by reference"); }
        uint32_t bad = 7; sx_assert(0 != a->set(bad) && 0 != a->get_as(&bad) && bad == 7, "a string is not a number"); delete a; sx_reach("string");
      } break;
      case 20: {   // binary
        uint8_t n = sx_choose(5, "n"); uint8_t* b = (uint8_t*) malloc(n + 1); sx_bytes(b, n, "b"); bool reap = sx_choose(2, "reap");
        C3PValue* a = sx_choose(2, "kv") ? new KeyValuePair("k", b, n) : new C3PValue(b, n); a->reapValue(reap); sx_assert(a->reapValue() == reap && a->is_ptr_len() && a->length() == n, "binary type and length");
        uint8_t* o = nullptr; uint32_t l = 99; sx_assert(0 == a->get_as(&o, &l) && o == b && l == n, "binary content by reference"); C3PBinBinder bb = a->get_as_ptr_len(); sx_assert(bb.buf == b && bb.len == n, "binary content as a pair");
        C3PValue num((uint32_t) sx_u32("num")); sx_assert(0 != num.get_as(&o, &l) && 0 != num.set(b, n), "a number is not binary content");
        C3PValue e(TCode::BINARY); sx_assert(e.length() == 0 && 0 == e.get_as(&o, &l) && o == nullptr && l == 0, "an unset binary value is empty"); if (!reap) { sx_assert(0 == e.set(a) && 0 == e.get_as(&o, &l) && o == b && l == n, "binary copied by reference"); }
        if (!reap) { uint8_t* b2 = (uint8_t*) malloc(5); uint32_t n2 = sx_choose(5, "n2"); uint16_t mark = a->trace(); sx_assert(!a->dirty(&mark), "binary not dirty before a change"); sx_assert(0 == a->set(b2, n2) && a->dirty(&mark) && !a->dirty(&mark), "binary dirty once after a change"); o = nullptr; sx_assert(0 == a->get_as(&o, &l) && o == b2 && l == n2 && a->length() == n2, "binary content last stored"); free(b2); }
        delete a; if (!reap) free(b); else sx_reach("reaped"); sx_reach("binary");
      } break;
      case 21: {   // builders
        uint8_t d[3]; sx_bytes(d, 3, "d"); StringBuilder* sb = new StringBuilder(); sb->concat(d, 1); if (sx_choose(2, "frag")) sb->concat(d + 1, 2); uint32_t n = sb->length(); bool reap = sx_choose(2, "reap");
        C3PValue* a = sx_choose(2, "kv") ? new KeyValuePair("k", sb) : new C3PValue(sb); a->reapValue(reap); sx_assert(a->tcode() == TCode::STR_BUILDER && a->length() == n, "builder type and length");
        StringBuilder pr; a->toString(&pr); sx_assert(pr.length() == (int) n && 0 == memcmp(pr.string(), d, n), "a builder prints its content");
        StringBuilder* g = nullptr; sx_assert(0 == a->get_as(&g) && g == sb, "a builder by reference"); StringBuilder cp; g = &cp; sx_assert(0 == a->get_as(&g) && cp.length() == (int) n && 0 == memcmp(cp.string(), d, n), "a builder's content by copy"); sx_assert(sb->length() == (int) n, "reading leaves a builder alone");
        StringBuilder other; other.concat("zz"); C3PValue b(TCode::STR_BUILDER); g = nullptr; sx_assert(0 == b.set(&other) && 0 == b.get_as(&g) && g == &other, "a builder stored by reference");
        delete a; if (!reap) delete sb; sx_reach("builder");
      } break;
      default: structural(); break;
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

//@ reach: split-fragment whole-fragments took-all range-missing chunked dropped negative
//@ bounds: strings of 0..3 fragments of 1..2 arbitrary bytes (quick; one more fragment thorough), donors alike; one operation of each kind (two in sequence when thorough) with fully symbolic limits, offsets and lengths; afterwards flattening
//@ outside: handing a string to itself, out-of-memory, fragments beyond these sizes
#include "sbmodel.h"
#define NF (THOROUGH ? 2 : 3)
#define NL 2
static void oneop(StringBuilder& sb, Model& m, int nops) {
  switch (sx_choose(nops, "op")) {
    case 0: { uint8_t t[3]; int n = sx_choose(4, "n"); sx_bytes(t, n, "t"); sb.concat(t, n); if (n) m.add(t, n); break; }
    case 1: { uint8_t t[3]; int n = sx_choose(4, "n"); sx_bytes(t, n, "t"); sb.prepend(t, n); if (n) { Model x; x.add(t, n); x.append(m); m = x; } break; }
    case 2: { StringBuilder d; Model dm; sbfill(d, dm, 2, NL, "d"); sb.concatHandoff(&d); m.append(dm); dm.clear(); sbcheck(d, dm, "donor is emptied by a handoff"); break; }
    case 3: { StringBuilder d; Model dm; sbfill(d, dm, 3, 3, "d"); uint32_t lim = sx_u32("limit");
      sb.concatHandoffLimit(&d, lim);
      int k = sx_branch(lim >= (uint32_t) dm.len) ? dm.len : (int) sx_concretize(lim);
      if (k == dm.len) sx_reach("took-all");
      Model tail; dm.splitAt(k, tail);
      if (k > 0 && tail.len) sx_reach(dm.fn + tail.fn > 3 ? "split-fragment" : "whole-fragments");
      m.append(dm); sbcheck(d, tail, "the donor keeps exactly the bytes past the limit"); break; }
    case 4: { StringBuilder d; Model dm; sbfill(d, dm, 3, 2, "d"); uint32_t pos = sx_u32("pos"), cnt = sx_u32("cnt");
      int r = sb.concatHandoffPositions(&d, pos, cnt);
      int p = sx_branch(pos >= (uint32_t) dm.fn) ? dm.fn : (int) sx_concretize(pos);
      int c = sx_branch(cnt >= (uint32_t) (dm.fn - p)) ? dm.fn - p : (int) sx_concretize(cnt);
      sx_assert(r == c, "positional handoff reports the number of fragments moved");
      Model rest; int o = 0;
      for (int i = 0; i < dm.fn; i++) { if (i >= p && i < p + c) m.add(dm.b + o, dm.fl[i]); else rest.add(dm.b + o, dm.fl[i]); o += dm.fl[i]; }
      sbcheck(d, rest, "the donor keeps the other fragments in order"); break; }
    case 5: { StringBuilder d; Model dm; sbfill(d, dm, 3, 2, "d"); uint32_t lim = sx_u32("limit");
      sb.concatLimit(&d, lim); int k = sx_branch(lim >= (uint32_t) dm.len) ? dm.len : (int) sx_concretize(lim);
      if (k) m.add(dm.b, k); sbcheck(d, dm, "copying leaves the source alone"); break; }
    case 6: { StringBuilder d; Model dm; sbfill(d, dm, 2, 2, "d"); sb.concat(&d); if (dm.len) m.add(dm.b, dm.len); sbcheck(d, dm, "copying leaves the source alone");
      if (dm.len) { d.toUpper(); d.clear(); } break; }
    case 7: { StringBuilder d; Model dm; sbfill(d, dm, 2, 2, "d"); sb.prependHandoff(&d); Model x = dm; x.append(m); m = x; dm.clear(); sbcheck(d, dm, "donor is emptied by a handoff"); break; }
    case 8: { int n = 1 + sx_choose(3, "n"); uint8_t* t = (uint8_t*) malloc(n); sx_bytes(t, n, "t"); uint8_t k[4]; memcpy(k, t, n); sb.concatHandoff(t, n); m.add(k, n); break; }
    case 9: { int off = (int) sx_u32("off"), len = (int) sx_u32("len");
      sb.cull(off, len);
      if (sx_branch(len == 0)) m.clear();
      else if (sx_branch((off >= 0) & (len > 0) & (off <= m.len) & (len <= m.len - off))) {
        off = sx_concretize(off); len = sx_concretize(len);
        Model x; x.add(m.b + off, len); m = x; }
      else { sx_reach("range-missing"); int l = sb.length(); sx_assert(l == m.len, "culling to a range that does not exist changes nothing"); if (sb.count() != m.fn) m.collapse(); }
      break; }
    case 10: { int x = (int) sx_u32("x"); sb.cull(x);
      if (sx_branch(x > 0)) { if (sx_branch(x >= m.len)) m.clear(); else { x = sx_concretize(x); Model y; y.add(m.b + x, m.len - x); m = y; } } break; }
    case 11: { int cs = (int) sx_u32("csize"); if (!m.len) break; int fn = m.fn;
      int r = sb.chunk(cs);
      if (sx_branch(cs <= 0)) { sx_assert(r == -1, "chunking to nothing is an error"); break; }
      int k = sx_branch(cs >= m.len) ? m.len : (int) sx_concretize(cs);
      Model x; for (int o = 0; o < m.len; o += k) x.add(m.b + o, (m.len - o < k) ? m.len - o : k);
      sx_assert(r == x.fn, "chunk reports the number of chunks"); m = x; if (x.fn > 1) sx_reach("chunked"); break; }
    case 12: { uint32_t pos = sx_u32("pos"); bool r = sb.drop_position(pos);
      if (sx_branch(pos < (uint32_t) m.fn)) { int p = sx_concretize(pos); sx_assert(r, "dropping an existing fragment succeeds"); Model x; int o = 0; for (int i = 0; i < m.fn; i++) { if (i != p) x.add(m.b + o, m.fl[i]); o += m.fl[i]; } m = x; sx_reach("dropped"); }
      else sx_assert(!r, "dropping a missing fragment fails"); break; }
    case 13: { uint32_t lim = sx_u32("lim"), st = sx_u32("start"); uint8_t o[16]; memset(o, 0x5a, sizeof(o)); sx_assume(lim <= 10);
      int r = sb.copyToBuffer(o, lim, st);
      uint32_t av = sx_branch(st >= (uint32_t) m.len) ? 0 : (uint32_t) m.len - (st = sx_concretize(st));
      uint32_t e = sx_branch(lim >= av) ? av : sx_concretize(lim);
      sx_assert(r == (int) e, "copying out reports the number of bytes");
      for (uint32_t i = 0; i < 16; i++) sx_assert(o[i] == (i < e ? m.b[st + i] : 0x5a), "copying out gives the bytes from the offset, and writes no others"); break; }
    case 14: { int o = (int) sx_u32("at"); uint8_t r = sb.byteAt(o); uint8_t e = 0; for (int i = 0; i < m.len; i++) if (i == o) e = m.b[i]; if (sx_branch(o < 0)) sx_reach("negative"); sx_assert(r == e, "byte access gives the byte, or zero outside the string"); break; }
    case 15: { sb.clear(); m.clear(); break; }
    case 16: { bool st = sx_branch(sx_u8("strict") & 1); bool e = (m.len == 0) || (!st && m.len == 1 && sx_branch(m.b[0] == 0)); sx_assert(sb.isEmpty(st) == e, "emptiness");
      int mx = 0; for (int i = 0; i < m.fn; i++) if (m.fl[i] > mx) mx = m.fl[i]; sx_assert(sb.maximumFragmentLength() == mx, "longest fragment"); break; }
    case 17: { int p = (int) sx_u32("p"); int pl = 99; uint8_t* t = sb.position(p, &pl);
      int k = sx_branch((p >= 0) & (p < m.fn)) ? (int) sx_concretize(p) : -1;
      sx_assert(t != nullptr, "fragment access never gives null");
      sx_assert(pl == (k >= 0 ? m.fl[k] : 0), "fragment length");
      if (k >= 0) { int o = m.off(k); for (int i = 0; i < pl; i++) sx_assert(t[i] == m.b[o + i], "fragment content"); sx_assert((char*) t == sb.position(k), "both accessors agree"); } break; }
    case 18: { char t[3]; sx_bytes(t, 2, "cs"); t[2] = 0; int n = sx_branch(t[0] == 0) ? 0 : sx_branch(t[1] == 0) ? 1 : 2; 
      if (sx_choose(2, "pre")) { sb.prepend((const char*) t); if (n) { Model x; x.add((uint8_t*) t, n); x.append(m); m = x; } } else { sb.concat((const char*) t); if (n) m.add((uint8_t*) t, n); } break; }
    case 19: { uint8_t c = sx_u8("c"); sb.concat(c); m.add(&c, 1); break; }
    case 20: { sb.string(); m.collapse(); break; }
  }
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    StringBuilder sb; Model m;
    sbfill(sb, m, NF, NL, "f");
    oneop(sb, m, 21);
    sbcheck(sb, m, "content is the concatenation of the fragments");
#if THOROUGH
    oneop(sb, m, 21);
    sbcheck(sb, m, "content is the concatenation of the fragments");
#endif
    bool handed = sb.count() == 1;
    uint8_t* s = sb.string(); m.collapse();
    sx_assert(s != nullptr, "flattening never gives null");
    for (int i = 0; i < m.len; i++) sx_assert(s[i] == m.b[i], "flattening keeps the content");
    if (!handed) sx_assert(s[m.len] == 0, "flattened content is terminated");
    sbcheck(sb, m, "flattening keeps the content");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

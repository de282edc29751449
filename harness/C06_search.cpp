//@ reach: found notfound overlap empty-replace replaced imploded across-fragments
//@ bounds: strings of 1..3 fragments of 1..2 arbitrary bytes (search) and 0..3 of 1..2 (implode), needles of 1..3 arbitrary bytes (text needles without NUL), replacements of 0..2, every start offset of 32 bits
//@ outside: needles handed as null pointers other than to replace
#include "sbmodel.h"
#define ML 2
static int refLocate(const Model& m, const uint8_t* n, int nl, int from) {
  for (int i = from; i + nl <= m.len; i++) { bool eq = true; for (int j = 0; j < nl; j++) eq = eq & (m.b[i + j] == n[j]); if (sx_branch(eq)) return i; }
  return -1;
}
static void text(char* t, int n, const char* nm) { sx_bytes(t, n, nm); for (int i = 0; i < n; i++) sx_assume(t[i] != 0); t[n] = 0; }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    StringBuilder sb; Model m; sbfill(sb, m, 3, ML, "f");
    switch (sx_choose(4, "op")) {
      case 0: { uint8_t n[4]; int nl = 1 + sx_choose(3, "nl"); sx_bytes(n, nl, "n");
        int st = (int) sx_u32("st"); sx_assume(st >= 0);
        int r = sb.locate(n, nl, st);
        int e = sx_branch(st >= m.len) ? -1 : refLocate(m, n, nl, sx_concretize(st));
        sx_assert(r == e, "search finds the first occurrence at or past the start");
        sx_reach(e >= 0 ? "found" : "notfound"); if (e >= 0 && m.fn > 1 && nl > 1 && e < m.fl[0] && e + nl > m.fl[0]) sx_reach("across-fragments");
        sx_assert(sb.cmpBinString(n, nl) == ((nl == m.len && refLocate(m, n, nl, 0) == 0) ? 1 : 0), "binary comparison");
        sbcheck(sb, m, "searching leaves the string alone"); break; }
      case 1: { char n[4]; int nl = 1 + sx_choose(2, "nl"); text(n, nl, "n");
        sx_assert(sb.contains(n) == (refLocate(m, (uint8_t*) n, nl, 0) >= 0), "contains");
        sx_assert(sb.contains(n[0]) == (refLocate(m, (uint8_t*) n, 1, 0) >= 0), "contains a character");
        sx_assert(sb.locate(n) == refLocate(m, (uint8_t*) n, nl, 0), "text search"); break; }
      case 2: { char n[4], rp[4]; int nl = 1 + sx_choose(3, "nl"); text(n, nl, "n"); int rl = sx_choose(3, "rl"); text(rp, rl, "r");
        uint8_t o[64]; int ol = 0, cnt = 0;
        for (int i = 0; i < m.len;) { bool eq = i + nl <= m.len; for (int j = 0; j < nl && i + nl <= m.len; j++) eq = eq & (m.b[i + j] == (uint8_t) n[j]);
          if (sx_branch(eq)) { for (int j = 0; j < rl; j++) o[ol++] = rp[j]; i += nl; cnt++; } else o[ol++] = m.b[i++]; }
        int r = sb.replace(n, rp);
        sx_assert(r == cnt, "replace reports the number of replacements");
        sx_assert(sb.length() == ol, "replace: resulting length");
        for (int i = 0; i < ol; i++) sx_assert(sb.byteAt(i) == o[i], "replace substitutes every non-overlapping occurrence from the left");
        if (cnt) sx_reach(rl ? "replaced" : "empty-replace"); if (cnt > 1 && nl > 1) sx_reach("overlap"); break; }
      case 3: { char d[3]; int dl = sx_choose(3, "dl"); text(d, dl, "d");
        int r = sb.implode(d);
        if (m.fn >= 2 && dl > 0) { Model x; uint8_t o[64]; int ol = 0, p = 0; for (int k = 0; k < m.fn; k++) { for (int i = 0; i < m.fl[k]; i++) o[ol++] = m.b[p++]; if (k + 1 < m.fn) for (int i = 0; i < dl; i++) o[ol++] = d[i]; }
          sx_assert(r == m.fn, "implode reports the number of tokens joined"); x.add(o, ol); m = x; sx_reach("imploded"); }
        else sx_assert(r == 0, "nothing to implode");
        sbcheck(sb, m, "implode joins the tokens with the delimiter"); break; }
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

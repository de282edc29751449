//@ reach: tokens no-tokens hex dec negative overflow-hex upper ci-found ci-notfound trimmed
//@ bounds: split: text of 0..6 bytes in up to 3 fragments with delimiter sets of 1..2 characters; case conversion: up to 4 arbitrary bytes; numeric tokens: decimal up to 5 characters, 0x-prefixed up to 10 (32-bit) and 18 (64-bit) hex digits; case-insensitive search: haystack up to 5, needle up to 3; integers: 256 (thorough: 1024) consecutive values from each of 8 places in the 32-bit range, the ends and the sign change included
//@ outside: locales; printf conversions other than the ones used; floating-point text
#include "sbmodel.h"
static void text(char* t, int n, const char* nm) { sx_bytes(t, n, nm); for (int i = 0; i < n; i++) sx_assume(t[i] != 0); t[n] = 0; }
static uint8_t up(uint8_t c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
static uint8_t lo(uint8_t c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static int hexv(uint8_t c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  {
    StringBuilder sb; Model m;
    switch (sx_choose(9, "op")) {
      case 0: { // split
        int nf = sx_choose(4, "nf"); for (int i = 0; i < nf; i++) { char t[3]; int n = 1 + sx_choose(2, "n"); text(t, n, "t"); sb.concat((uint8_t*) t, n); m.add((uint8_t*) t, n); }
        char d[3]; int dl = 1 + sx_choose(2, "dl"); text(d, dl, "d");
        Model x; int s = -1;
        for (int i = 0; i <= m.len; i++) { bool isd = i == m.len; if (!isd) { bool e = false; for (int j = 0; j < dl; j++) e = e | (m.b[i] == (uint8_t) d[j]); isd = sx_branch(e); }
          if (isd) { if (s >= 0) x.add(m.b + s, i - s); s = -1; } else if (s < 0) s = i; }
        int r = sb.split(d);
        sx_assert(r == x.fn, "split reports the number of tokens");
        if (x.fn) { sbcheck(sb, x, "split leaves exactly the tokens"); sx_reach("tokens"); for (int i = 0; i < x.fn; i++) sx_assert(strlen(sb.position(i)) == (size_t) x.fl[i], "tokens are terminated"); }
        else { sx_reach("no-tokens"); m.collapse(); sbcheck(sb, m, "a string with no tokens is left alone"); }
        break; }
      case 1: { sbfill(sb, m, 2, 2, "f"); bool u = sx_choose(2, "up"); if (u) sb.toUpper(); else sb.toLower(); for (int i = 0; i < m.len; i++) m.b[i] = u ? up(m.b[i]) : lo(m.b[i]); sx_reach("upper"); sbcheck(sb, m, "case conversion touches ASCII letters only"); break; }
      case 2: { // decimal
        char t[8]; int n = 1 + sx_choose(5, "n"); text(t, n, "t"); int p = sx_choose(2, "pos"); if (p) sb.concat("zz"); sb.concat(t);
        if (sx_branch(t[0] == '0' && n > 2 && t[1] == 'x')) break;
        int i = 0; while (i < n && sx_branch(t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++;
        bool ng = false; if (i < n && sx_branch(t[i] == '-')) { ng = true; i++; } else if (i < n && sx_branch(t[i] == '+')) i++;
        int32_t v = 0; while (i < n && sx_branch(t[i] >= '0' && t[i] <= '9')) v = v * 10 + (t[i++] - '0');
        if (ng) v = -v;
        sx_assert(sb.position_as_int(p) == v, "decimal token as an integer"); sx_reach(ng ? "negative" : "dec");
        sx_assert(sb.position_as_uint64(p) == (uint64_t) (int64_t) v, "decimal token as a 64-bit integer");
        break; }
      case 3: case 4: { // hex
        bool w64 = sx_choose(2, "w64"); int n = 1 + sx_choose(w64 ? 18 : 10, "n"); if (!THOROUGH && n > 3 && n < (w64 ? 15 : 7)) break; char t[24] = "0x"; 
        int stop = sx_choose(n + 1, "stop"); int cs = sx_choose(2, "case"); bool oc = sx_choose(2, "class"); int odd = sx_choose(n, "odd"); // one digit of the other class
        for (int i = 0; i < n; i++) { if (i == stop) { sx_bytes(t + 2 + i, 1, "s"); uint8_t q = t[2 + i]; sx_assume(q != 0); sx_assume(!((q >= '0' && q <= '9') || (q >= 'a' && q <= 'f') || (q >= 'A' && q <= 'F'))); }
          else if (i > stop) t[2 + i] = '7';
          else { uint8_t d = sx_u8("d"); bool oth = i == odd; if (oth ? !oc : oc) { sx_assume(d < 10); t[2 + i] = '0' + d; } else { sx_assume((d >= 10) & (d < 16)); t[2 + i] = (cs ? 'a' : 'A') + d - 10; } } }
        t[2 + n] = 0; sb.concat(t);
        uint64_t v = 0; int lim = w64 ? 16 : 8; for (int i = 0; i < n && i < lim && i < stop; i++) { uint8_t c = t[2 + i]; bool oth = i == odd; v = (v << 4) | (uint64_t) ((oth ? !oc : oc) ? c - '0' : (cs ? c - 'a' : c - 'A') + 10); }
        if (w64) sx_assert(sb.position_as_uint64(0) == v, "hex token as a 64-bit integer"); else sx_assert((uint32_t) sb.position_as_int(0) == (uint32_t) v, "hex token as an integer");
        sx_reach(n > lim ? "overflow-hex" : "hex"); break; }
      case 5: { char h[8], n[4]; int hl = sx_choose(6, "hl"), nl = sx_choose(4, "nl"); text(h, hl, "h"); text(n, nl, "n");
        int e = -1; for (int i = 0; i + nl <= hl && e < 0 && nl; i++) { bool eq = true; for (int j = 0; j < nl; j++) eq = eq & (up(h[i + j]) == up(n[j])); if (sx_branch(eq)) e = i; }
        char* r = StringBuilder::strcasestr(h, n);
        sx_assert(e < 0 ? r == nullptr : r == h + e, "case-insensitive search"); sx_reach(e < 0 ? "ci-notfound" : "ci-found");
        bool eq = hl == nl; for (int i = 0; i < nl && eq; i++) eq = eq & (up(h[i]) == up(n[i]));
        sx_assert((StringBuilder::strcasecmp(h, n) == 0) == eq, "case-insensitive equality");
        unsigned mx = sx_choose(4, "mx"); char* c = StringBuilder::deep_copy(h, mx); int cl = (mx == 0 || (int) mx > hl) ? hl : (int) mx;
        for (int i = 0; i < cl; i++) sx_assert(c[i] == h[i], "deep copy"); sx_assert(c[cl] == 0, "deep copy is terminated"); free(c);
        break; }
      case 6: { static const uint32_t base[] = {0, 9000, 0x7ffffc00u, 0x80000000u, 0xfffffc00u, 999999900u, 123456789u, 4000000000u}; uint32_t v = base[sx_choose(8, "base")] + (sx_u16("v") & (THOROUGH ? 0x3ff : 0xff)); bool s = sx_choose(2, "signed"); if (s) sb.concat((int) v); else sb.concat((unsigned int) v);
        // read back by Horner: the text denotes the value
        const char* p = (const char*) sb.string(); int n = sb.length(); int i = 0; bool ng = false; if (sx_branch(p[0] == '-')) { ng = true; i = 1; }
        sx_assert(ng == (s && (int32_t) v < 0), "sign of an appended integer");
        sx_assert(i < n, "an appended integer has digits"); sx_assert(!(p[i] == '0') | (n == i + 1), "no leading zeros");
        uint32_t b = 0; for (; i < n; i++) { sx_assert(p[i] >= '0' && p[i] <= '9', "an appended integer is decimal digits"); b = b * 10 + (p[i] - '0'); }
        sx_assert((ng ? 0 - b : b) == v, "an appended integer denotes its value"); break; }
      case 7: { char t[8]; int n = sx_choose(5, "n"); text(t, n, "t"); char k[8]; memcpy(k, t, 8);
        int a = 0, z = n; while (a < n && sx_branch(k[a] == ' ' || (k[a] >= 9 && k[a] <= 13))) a++; while (z > a && sx_branch(k[z - 1] == ' ' || (k[z - 1] >= 9 && k[z - 1] <= 13))) z--;
        char* r; if (sx_choose(2, "which")) r = StringBuilder::trim(t); else { sb.concat("q"); sb.concat(t); r = n ? sb.position_trimmed(1) : (char*) ""; }
        sx_assert(strlen(r) == (size_t) (z - a), "trimming drops exactly the outer whitespace"); for (int i = a; i < z; i++) sx_assert(r[i - a] == k[i], "trimming keeps the content"); sx_reach("trimmed"); break; }
      case 8: { char c = (char) sx_u8("c"); char s[4]; int n = sx_choose(4, "n"); text(s, n, "s"); sb.concat("ab");
        sx_assume(c != 0);
        int r = sb.concatf("<%s|%c|%u>", s, c, 7u); uint8_t e[16]; int k = 0; e[k++] = 'a'; e[k++] = 'b'; e[k++] = '<'; for (int i = 0; i < n; i++) e[k++] = s[i]; e[k++] = '|'; e[k++] = c; e[k++] = '|'; e[k++] = '7'; e[k++] = '>';
        sx_assert(r == k - 2, "formatted append reports its length"); sx_assert(sb.length() == k, "formatted append length"); for (int i = 0; i < k; i++) sx_assert(sb.byteAt(i) == e[i], "formatted append content");
        sb.concat(c); sx_assert(sb.length() == k + 1 && sb.byteAt(k) == (uint8_t) c, "appending a character"); sb.concat(true); sx_assert(sb.byteAt(k + 1) == 'T', "appending a boolean"); break; }
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

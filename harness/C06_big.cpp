//@ reach: done found
//@ bounds: and strings of 600 bytes and of 300 tokens
#include "sx.h"
#include "StringBuilder.h"
#include "rt_common.h"
static char ref[4000], out[8000]; static int n = 0;
static void check(StringBuilder& sb, const char* r, int len) { sx_assert(sb.length() == len && 0 == memcmp(sb.string(), r, len), "content of a long string"); }
int sx_main() {
  sx_budget(300000000);
  uint32_t heap0 = sx_heap_bytes();
  {
    StringBuilder sb; const char mark = (char) sx_u8("mark"); sx_assume(mark >= 'a' && mark <= 'z');
    static const int AT[] = {0, 1, 254, 255, 256, 257, 510, 597}; const int at = AT[sx_choose(8, "at")];
    const int cut = AT[sx_choose(8, "cut")];
    n = 600; for (int i = 0; i < n; i++) ref[i] = "0123456789+"[i % 11]; ref[at] = mark; ref[at + 1] = '.'; ref[at + 2] = 'Q'; ref[n] = 0;
    if (cut) sb.concat((uint8_t*) ref, cut); sb.concat((uint8_t*) ref + cut, n - cut);
    char needle[4] = {mark, '.', 'Q', 0};
    switch (sx_choose(6, "op")) {
      case 0: sx_assert(sb.locate(needle) == at, "search in a long string"); sx_assert(sb.locate((const uint8_t*) needle, 3, at) == at && sb.locate((const uint8_t*) needle, 3, at + 1) == -1, "search from an offset in a long string"); sx_assert(sb.contains('Q') && sb.contains(needle) && !sb.contains('Z'), "search in a long string"); sx_assert(sb.cmpBinString((uint8_t*) ref, n) == 1, "comparison of a long string"); ref[at + 1] ^= 1; sx_assert(sb.cmpBinString((uint8_t*) ref, n) == 0, "comparison of a long string"); sx_reach("found"); break;
      case 1: { char rp[301]; const int rl = sx_choose(2, "rl") ? 300 : 1; memset(rp, 'r', rl); rp[rl] = 0; sx_assert(sb.replace(needle, rp) == 1, "replacement in a long string"); memcpy(out, ref, at); memcpy(out + at, rp, rl); memcpy(out + at + rl, ref + at + 3, n - at - 3); check(sb, out, n + rl - 3); } break;
      case 2: { int k = 0, ol = 0; for (int i = 0; i < n; i++) if (ref[i] == '+') { memcpy(out + ol, "<plus>", 6); ol += 6; k++; } else out[ol++] = ref[i]; sx_assert(sb.replace("+", "<plus>") == k, "many replacements in a long string"); check(sb, out, ol); } break;
      case 3: { StringBuilder t; for (int i = 0; i < 300; i++) { char b[3] = {(char) ('a' + i % 26), (char) ('a' + i / 26), ','}; t.concat((uint8_t*) b, 3); } sx_assert(t.split(",") == 300 && t.count() == 300, "many tokens"); for (int i = 0; i < 300; i += 13) sx_assert(t.position(i)[0] == 'a' + i % 26 && t.position(i)[1] == 'a' + i / 26 && t.position(i)[2] == 0, "many tokens"); sx_assert(t.implode(";;") == 300 && t.length() == 300 * 2 + 299 * 2, "joining many tokens"); for (int i = 0; i < 300; i += 7) sx_assert(t.byteAt(i * 4) == 'a' + i % 26 && t.byteAt(i * 4 + 1) == 'a' + i / 26 && (i == 299 || (t.byteAt(i * 4 + 2) == ';' && t.byteAt(i * 4 + 3) == ';')), "joining many tokens"); } break;
      case 4: { sx_assert(sb.split("+.") > 50, "tokens of a long string"); int p = 0; for (int i = 0; i < sb.count(); i++) { while (ref[p] == '+' || ref[p] == '.') p++; const char* t = sb.position(i); const int l = strlen(t); sx_assert(l > 0 && 0 == memcmp(t, ref + p, l) && (ref[p + l] == 0 || ref[p + l] == '+' || ref[p + l] == '.'), "tokens of a long string"); p += l; } while (ref[p] == '+' || ref[p] == '.') p++; sx_assert(p == n, "tokens of a long string"); } break;
      case 5: { StringBuilder f; ref[at + 2] = 'q'; const int r = f.concatf("[%s|%u|%s]", ref, 70000u, needle); sx_assert(r == n + 12 && f.length() == r, "long formatted text"); f.toUpper(); for (int i = 0; i < n; i++) { const char c = ref[i]; sx_assert(f.byteAt(i + 1) == (uint8_t) ((c >= 'a' && c <= 'z') ? c - 32 : c), "case conversion of a long string"); } char* c = StringBuilder::deep_copy(ref); sx_assert(0 == strcmp(c, ref), "copy of long text"); sx_assert(0 == StringBuilder::strcasecmp(c, ref), "comparison of long text"); char* w = StringBuilder::strcasestr(c, "Q"); sx_assert(w == c + at + (mark == 'q' ? 0 : 2), "search of long text"); free(c); } break;
    }
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

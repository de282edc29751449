//@ reach: short long full nonhex equal unequal
//@ bounds: every 128-bit value for print/parse/compare/copy; parsing: any text of up to 5 arbitrary bytes after 13..15 given bytes' worth of digits, and any text of up to 6 bytes from the start; generation from every RNG output; destination buffers of 30..40 bytes
//@ outside: parsing texts whose every character is arbitrary beyond these lengths
#include "sx.h"
#include "plat.h"
#include "uuid.h"
static int hexv(uint8_t c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
int sx_main() {
  switch (sx_choose(4, "op")) {
    case 0: { UUID u, v, w; sx_bytes(u.id, 16, "id"); memset(v.id, 0xA5, 16); char b[44]; memset(b, 0x5a, sizeof(b));
      int bl = 30 + sx_choose(11, "bl"); uuid_to_str(&u, b, bl);
      if (bl < 37) { for (int i = 0; i < 44; i++) sx_assert(b[i] == 0x5a, "a buffer that is too small is left alone"); sx_reach("short"); break; }
      sx_reach("full");
      sx_assert(strlen(b) == 36, "printed length");
      for (int i = 37; i < 44; i++) sx_assert(b[i] == 0x5a, "nothing is written past the text");
      int k = 0; for (int i = 0; i < 36; i++) { if (i == 8 || i == 13 || i == 18 || i == 23) { sx_assert(b[i] == '-', "dashes of the canonical form"); continue; }
        uint8_t nib = (k & 1) ? (u.id[k / 2] & 15) : (u.id[k / 2] >> 4); k++; sx_assert((uint8_t) b[i] == (uint8_t) (nib < 10 ? '0' + nib : 'a' + nib - 10), "printed digits"); }
      uuid_copy(&u, &w); for (int i = 0; i < 16; i++) sx_assert(w.id[i] == u.id[i], "copy");
      StringBuilder sb; uuid_to_sb(&u, &sb); sx_assert(sb.length() == 36, "printed into a string"); for (int i = 0; i < 36; i++) sx_assert(sb.byteAt(i) == (uint8_t) b[i], "both printers agree");
      break; }
    case 1: { UUID a, b; int q = sx_choose(16, "q"); memset(a.id, 7, 16); memset(b.id, 7, 16); a.id[q] = sx_u8("x"); b.id[q] = sx_u8("y"); a.id[(q + 5) % 16] = b.id[(q + 5) % 16] = sx_u8("z");
      bool eq = sx_branch(a.id[q] == b.id[q]); sx_reach(eq ? "equal" : "unequal");
      sx_assert((uuid_compare(&a, &b) == 0) == eq, "comparison is zero exactly for equal values"); break; }
    case 2: { // parse: prefix digits then arbitrary characters
      char t[64]; int n = 0; int pre = sx_choose(2, "pre") ? 26 + sx_choose(6, "npre") : 0;
      for (int i = 0; i < pre; i++) { if (i == 8 || i == 12) t[n++] = '-'; t[n++] = "0123456789abcdefABCDEF"[(i * 7) % 22]; }
      int e = sx_choose(6, "extra"); for (int i = 0; i < e; i++) { uint8_t c = sx_u8("c"); sx_assume(c != 0); t[n++] = c; } t[n] = 0;
      UUID u; memset(u.id, 0xA5, 16); uint8_t x[16]; memset(x, 0xA5, 16); int nib = 0, hi = 0;
      for (int i = 0; i < n && nib < 32; i++) { uint8_t c = t[i]; int v = -1; if (sx_branch(c >= '0' && c <= '9')) v = c - '0'; else if (sx_branch(c >= 'a' && c <= 'f')) v = c - 'a' + 10; else if (sx_branch(c >= 'A' && c <= 'F')) v = c - 'A' + 10; else { sx_reach("nonhex"); continue; }
        if (nib & 1) x[nib / 2] = (hi << 4) | v; else hi = v; nib++; }
      if (nib == 32) sx_reach("long");
      uuid_from_str(t, &u);
      for (int i = 0; i < 16; i++) sx_assert(u.id[i] == x[i], "parsing takes the hex digits in order, at most 32 of them, and ignores all else"); break; }
    case 3: { plat_rng_mode = 1; UUID u; memset(u.id, 0, 16); uuid_gen(&u); sx_assert((u.id[6] >> 4) == 4, "generated values are version 4"); sx_assert((u.id[8] >> 6) == 2, "generated values are RFC4122 variant"); break; }
  }
  return 0;
}

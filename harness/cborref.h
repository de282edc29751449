/* Reference for RFC 8949 definite-length items. */
#pragma once
#include "sx.h"
struct Ev { uint8_t kind; uint8_t sign; uint64_t v; uint8_t b[16]; };   // kind: 'i' integer, 'b' bytes, 't' text, 'a' array, 'm' map, 'g' tag, 's' simple, 'o' boolean, 'n' null, 'u' undefined, 'f' float, 'd' double, 'e' error
static inline uint64_t ref_be(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = (v << 8) | p[i]; return v; }
/* Head of the item at p: returns the head's size, or 0 if there are not enough bytes, or -1 if it is malformed (reserved or indefinite). */
static int ref_head(const uint8_t* p, int n, uint8_t* major, uint8_t* minor, uint64_t* arg) {
  if (n < 1) return 0;
  *major = p[0] >> 5; *minor = p[0] & 31;
  if (*minor < 24) { *arg = *minor; return 1; }
  if (*minor > 27) return -1;
  int l = *minor == 24 ? 1 : *minor == 25 ? 2 : *minor == 26 ? 4 : 8;
  if (n < 1 + l) return 0;
  *arg = ref_be(p + 1, l); return 1 + l;
}

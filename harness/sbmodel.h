// Reference model of a StringBuilder: flat bytes plus fragment lengths.
#pragma once
#include "sx.h"
#include "StringBuilder.h"
#include "rt_common.h"
struct Model {
  uint8_t b[96]; int len = 0; int fl[24]; int fn = 0;
  void add(const uint8_t* p, int n) { for (int i = 0; i < n; i++) b[len++] = p[i]; fl[fn++] = n; }
  void collapse() { if (fn > 1) { fl[0] = len; fn = 1; } }
  void clear() { len = 0; fn = 0; }
  int  off(int k) { int o = 0; for (int i = 0; i < k; i++) o += fl[i]; return o; }
  // take the bytes [0, n), n <= len, cutting a fragment if need be
  void splitAt(int n, Model& tail) { // this keeps [0,n), the tail gets the rest; fragments follow
    int o = 0; int k = 0; Model head;
    for (; k < fn && o + fl[k] <= n; k++) { head.add(b + o, fl[k]); o += fl[k]; }
    if (k < fn && o < n) { head.add(b + o, n - o); tail.add(b + n, o + fl[k] - n); o += fl[k]; k++; }
    for (; k < fn; k++) { tail.add(b + o, fl[k]); o += fl[k]; }
    *this = head;
  }
  void append(Model& o) { int x = 0; for (int i = 0; i < o.fn; i++) { add(o.b + x, o.fl[i]); x += o.fl[i]; } }
};
// Fill sb with nfrag fragments of the chosen sizes with symbolic content.
static inline void sbfill(StringBuilder& sb, Model& m, int maxfrag, int maxlen, const char* nm) {
  int nf = sx_choose(maxfrag + 1, "nfrag");
  for (int i = 0; i < nf; i++) { int n = 1 + sx_choose(maxlen, "flen"); uint8_t t[16]; sx_bytes(t, n, nm); sb.concat(t, n); m.add(t, n); }
}
static inline void sbcheck(StringBuilder& sb, Model& m, const char* lbl) {
  sx_assert(sb.length() == m.len, "length is the number of content bytes");
  sx_assert(sb.count() == m.fn, "fragment count");
  for (int i = 0; i < m.len; i++) sx_assert(sb.byteAt(i) == m.b[i], lbl);
}

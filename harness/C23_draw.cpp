//@ reach: line steep far rect clip roundrect triangle flat circle filled text wrapped bounds up down refused
//@ bounds: lines between any two of 6x6 points, straight lines and rectangles at every 16-bit position with sides up to 5, every triangle on a 4x4 grid (5x5 thorough), circles of radius 0 to 4 centred anywhere in and around an 8x8 image, rounded rectangles from 3x3 to 7x7, every character at 1x and 2x, strings of up to 3 characters of 4 kinds, scaling by 1/2, 1/3, 1, 2 and 3
//@ outside: rounded rectangles less than 3 pixels wide (which vanish when filled); ellipses; shapes larger than the bounds
//@ time: 300
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
static int D;
static uint8_t px[32 * 20];
static bool on(Image& i, int x, int y) { return i.getPixel((PixUInt) x, (PixUInt) y) == 7; }
static int iabs(int v) { return v < 0 ? -v : v; }
static void fresh(int w, int h) { memset(px, 0, sizeof(px)); D = w; (void) h; }
static void lines() {
  int x0 = sx_choose(6, "x0"), y0 = sx_choose(6, "y0"), x1 = sx_choose(6, "x1"), y1 = sx_choose(6, "y1"); fresh(6, 6); Image img(6, 6, ImgBufferFormat::GREY_8, px); img.drawLine(x0, y0, x1, y1, 7);
  int dx = x1 - x0, dy = y1 - y0, m = iabs(dx) > iabs(dy) ? iabs(dx) : iabs(dy), n = 0; if (iabs(dy) > iabs(dx)) sx_reach("steep");
  for (int x = 0; x < 6; x++) for (int y = 0; y < 6; y++) if (on(img, x, y)) { n++; sx_assert(x >= (x0 < x1 ? x0 : x1) && x <= (x0 < x1 ? x1 : x0) && y >= (y0 < y1 ? y0 : y1) && y <= (y0 < y1 ? y1 : y0) && 2 * iabs(dy * (x - x0) - dx * (y - y0)) <= 2 * m - (m ? 1 : 0), "a line stays next to its ideal"); }
  sx_assert(n == m + 1 && on(img, x0, y0) && on(img, x1, y1), "a line has both ends and no gaps"); sx_reach("line");
}
static void far() {
  fresh(4, 4); Image img(4, 4, ImgBufferFormat::GREY_8, px); uint32_t k = sx_choose(4, "far"); sx_budget(90000000);
  switch (k) { case 0: img.drawLine(1, 2, 65535, 2, 7); break; case 1: img.drawLine(2, 1, 2, 65535, 7); break; case 2: img.drawFastHLine(1, 2, 65535, 7); break; default: img.drawFastVLine(2, 1, 65535, 7); }
  for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) sx_assert(on(img, x, y) == ((k & 1) ? (x == 2 && y >= (k == 3 ? 0 : 1)) : (y == 2 && x >= (k == 2 ? 0 : 1))) || (k == 2 && x == 0) || (k == 3 && y == 0), "a line to the edge of the coordinate space ends, clipped"); sx_reach("far");
}
static void rects() {
  fresh(4, 4); Image img(4, 4, ImgBufferFormat::GREY_8, px); uint32_t op = sx_choose(4, "op"), x = sx_u16("x"), y = sx_u16("y"), w = sx_choose(6, "w"), h = sx_choose(6, "h"); if (op == 3) sx_assume(w && h);
  switch (op) { case 0: img.drawFastHLine(x, y, w, 7); h = 1; break; case 1: img.drawFastVLine(x, y, h, 7); w = 1; break; case 2: img.fillRect(x, y, w, h, 7); break; default: img.drawRect(x, y, w, h, 7); }
  for (uint32_t i = 0; i < 4; i++) for (uint32_t j = 0; j < 4; j++) { uint32_t u = (i - x) & 0xFFFF, v = (j - y) & 0xFFFF; bool e = u < w && v < h && (op != 3 || u == 0 || v == 0 || u == w - 1 || v == h - 1); sx_assert(on(img, i, j) == e, "straight shapes cover exactly their pixels, clipped"); }
  if (sx_branch(x > 65530)) sx_reach("clip"); sx_reach("rect");
}
static void roundrects() {
  int w = 3 + sx_choose(5, "w"), h = 3 + sx_choose(5, "h"), r = sx_choose(5, "r"); static uint8_t q[81]; fresh(9, 9); memset(q, 0, 81); Image a(9, 9, ImgBufferFormat::GREY_8, px), b(9, 9, ImgBufferFormat::GREY_8, q); a.drawRoundRect(1, 1, w, h, r, 7); b.fillRoundRect(1, 1, w, h, r, 7);
  int m = (w < h ? w : h) / 2; if (r > m) r = m;
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) {
    bool in = i >= 1 && j >= 1 && i <= w && j <= h; if (!in) { sx_assert(!on(a, i, j) && !on(b, i, j), "rounded rectangles stay within the rectangle"); continue; }
    bool edge = i == 1 || j == 1 || i == w || j == h; int cx = i - 1 < w - i ? i - 1 : w - i, cy = j - 1 < h - j ? j - 1 : h - j; bool corner = cx < r && cy < r;
    if (!corner) { sx_assert(on(b, i, j), "the body of a rounded rectangle is filled"); sx_assert(on(a, i, j) == edge, "straight edges of a rounded rectangle"); }
    else { sx_assert(!on(a, i, j) || on(b, i, j), "the outline is within the filled shape"); int d = (r - cx) * (r - cx) + (r - cy) * (r - cy); if (on(b, i, j)) sx_assert(d < (r + 1) * (r + 1), "corners are rounded"); if (d <= (r - 1) * (r - 1)) sx_assert(on(b, i, j), "corners are filled"); }
    sx_assert(on(a, i, j) == on(a, w + 1 - i, j) && on(a, i, j) == on(a, i, h + 1 - j) && on(b, i, j) == on(b, w + 1 - i, j) && on(b, i, j) == on(b, i, h + 1 - j), "rounded rectangles are symmetric");
  }
  sx_reach("roundrect");
}
static void triangles() {
  const int G = THOROUGH ? 5 : 4; int x[3], y[3]; for (int i = 0; i < 3; i++) { x[i] = sx_choose(G, "x"); y[i] = sx_choose(G, "y"); } static uint8_t q[36]; fresh(6, 6); memset(q, 0, 36); Image img(6, 6, ImgBufferFormat::GREY_8, px), out(6, 6, ImgBufferFormat::GREY_8, q); bool swap = x[0] + y[0] > 3;
  img.fillTriangle(x[0], y[0], x[1], y[1], x[2], y[2], 7); out.drawTriangle(x[0], y[0], x[1], y[1], x[2], y[2], 7); (void) swap; int A = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); if (A == 0) sx_reach("flat");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
    int inside = 1; bool nearby = false; for (int k = 0; k < 3; k++) { int n = (k + 1) % 3, e = (x[n] - x[k]) * (j - y[k]) - (y[n] - y[k]) * (i - x[k]); if (A < 0) e = -e; if (e <= 0) inside = 0; }
    // the span of the row, by exact rational comparison: some point of the triangle in this row is within one pixel
    for (int k = 0; k < 3; k++) { int n = (k + 1) % 3, yl = y[k] < y[n] ? y[k] : y[n], yh = y[k] < y[n] ? y[n] : y[k]; if (j < yl || j > yh) continue; if (y[k] == y[n]) { int xl = x[k] < x[n] ? x[k] : x[n], xh = x[k] < x[n] ? x[n] : x[k]; if (i >= xl && i <= xh) nearby = true; } else { int d = y[n] - y[k], num = x[k] * d + (x[n] - x[k]) * (j - y[k]); if (d < 0) { d = -d; num = -num; } if (iabs(i * d - num) < d) nearby = true; } }
    if (A && inside) sx_assert(on(img, i, j), "the interior of a triangle is filled"); if (on(img, i, j)) sx_assert((A && inside) || nearby, "nothing outside of a triangle is filled");
    for (int k = 0; k < 3; k++) if (i == x[k] && j == y[k]) sx_assert(on(out, i, j), "corners of a triangle outline");
  }
  sx_reach("triangle");
}
static void circles() {
  int cx = (int) sx_choose(14, "cx") - 3, cy = (int) sx_choose(14, "cy") - 3, r = sx_choose(5, "r"); static uint8_t q[64]; fresh(8, 8); memset(q, 0, 64); Image a(8, 8, ImgBufferFormat::GREY_8, px), b(8, 8, ImgBufferFormat::GREY_8, q); a.drawCircle((PixUInt) cx, (PixUInt) cy, r, 7); b.fillCircle((PixUInt) cx, (PixUInt) cy, r, 7);
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) {
    int dx = i - cx, dy = j - cy, d = dx * dx + dy * dy; bool s = on(a, i, j), f = on(b, i, j); if (s) sx_assert(d < (r + 1) * (r + 1) && (r == 0 || d > (r - 1) * (r - 1)), "a circle stays next to its ideal");
    if ((dx == 0 && iabs(dy) == r) || (dy == 0 && iabs(dx) == r)) sx_assert(s, "extremes of a circle"); if (s) sx_assert(f, "a filled circle contains its outline"); if (f) sx_assert(d < (r + 1) * (r + 1), "nothing outside of a circle is filled"); if (r && d <= (r - 1) * (r - 1)) sx_assert(f, "the interior of a circle is filled");
    int mx = 2 * cx - i, my = 2 * cy - j; if (mx >= 0 && mx < 8) sx_assert(s == on(a, mx, j) && f == on(b, mx, j), "circles are symmetric"); if (my >= 0 && my < 8) sx_assert(s == on(a, i, my) && f == on(b, i, my), "circles are symmetric");
    int tx = cx + dy, ty = cy + dx; if (tx >= 0 && tx < 8 && ty >= 0 && ty < 8) sx_assert(s == on(a, tx, ty), "circles are symmetric");
  }
  for (int i = 0; i < 8; i++) { int dx = i - cx; if (2 * dx * dx > r * r) continue; int n = 0, vis = 0; for (int j = 0; j < 8; j++) if (j >= cy) n += on(a, i, j); if (cy >= 0 && cy + r < 8) vis = 1; if (vis) sx_assert(n == 1 || (2 * dx * dx == r * r) || (2 * (iabs(dx) + 1) * (iabs(dx) + 1) > r * r && n >= 1), "a circle has no gaps"); }
  sx_reach("circle"); sx_reach("filled");
}
static void text() {
  uint8_t c = sx_choose(256, "c"); bool cp = sx_choose(2, "cp437"), opaque = sx_choose(2, "opaque"); static uint8_t q[32 * 20], o[32 * 20]; fresh(16, 20); memset(q, 0, sizeof(q)); Image a(16, 20, ImgBufferFormat::GREY_8, px), b(16, 20, ImgBufferFormat::GREY_8, q); a.cp437(cp); b.cp437(cp);
  int x = sx_choose(2, "x") ? 2 : 0; a.drawChar(x, 1, c, 7, opaque ? 9 : 7, 1); b.drawChar(x, 1, c, 7, opaque ? 9 : 7, 2); (void) o; int lit = 0;
  for (int i = 0; i < 16; i++) for (int j = 0; j < 20; j++) { int u = i - x, v = j - 1; bool cell = u >= 0 && u < 6 && v >= 0 && v < 8; uint32_t g = a.getPixel(i, j); lit += g == 7; if (!cell) sx_assert(g == 0, "a character stays in its cell"); else sx_assert(g == 7 || g == (opaque ? 9 : 0), "opaque characters cover their cell, others only what they light"); if (u == 5) sx_assert(g != 7, "a blank column separates characters"); if (u >= 0 && u < 12 && v >= 0 && v < 16) sx_assert(b.getPixel(i, j) == a.getPixel(x + u / 2, 1 + v / 2), "magnified characters are the same, magnified"); else sx_assert(b.getPixel(i, j) == 0, "a magnified character stays in its cell"); }
  if (c > ' ' && c < 127) sx_assert(lit > 0, "printable characters are visible"); if (c == ' ') sx_assert(lit == 0, "a space is blank"); sx_reach("text");
}
static void strings() {
  static const char K[4] = {'A', ' ', '\n', '\r'}; char s[4]; int n = sx_choose(4, "n"); for (int i = 0; i < n; i++) s[i] = K[sx_choose(4, "k")]; s[n] = 0; fresh(16, 20); Image img(16, 20, ImgBufferFormat::GREY_8, px); bool wrap = sx_choose(2, "wrap"); img.textWrap(wrap); img.setTextSize(1); img.setTextColor(7, 9); PixUInt x = sx_choose(2, "x") ? 5 : 0, x1 = 99, y1 = 99, w = 99, h = 99, X1, Y1, W, H; img.setCursor(x, 0);
  img.getTextBounds(s, x, 0, &x1, &y1, &w, &h); img.getTextBounds((const uint8_t*) s, x, 0, &X1, &Y1, &W, &H); sx_assert(x1 == X1 && y1 == Y1 && w == W && h == H, "bounds of one text are the same in every form"); if (n) { StringBuilder sb(s); X1 = Y1 = W = H = 99; img.getTextBounds(&sb, x, 0, &X1, &Y1, &W, &H); sx_assert(x1 == X1 && y1 == Y1 && w == W && h == H, "bounds of one text are the same in every form"); }
  img.writeString(s); int cx = x, cy = 0, mnx = 999, mny = 999, mxx = -1, mxy = -1; for (int i = 0; i < n; i++) { if (s[i] == '\n') { cx = 0; cy += 8; } else if (s[i] != '\r') { if (wrap && cx + 6 > 16) { cx = 0; cy += 8; sx_reach("wrapped"); } if (cx < mnx) mnx = cx; if (cy < mny) mny = cy; if (cx + 5 > mxx) mxx = cx + 5; if (cy + 7 > mxy) mxy = cy + 7; cx += 6; } }
  sx_assert(img.getCursorX() == cx && img.getCursorY() == cy, "the cursor advances by character and line"); if (mxx >= 0 && mnx < 16 && mny < 20) { sx_assert(x1 == mnx && y1 == mny && w == mxx - mnx + 1 && h == mxy - mny + 1, "bounds contain exactly the cells of the text"); sx_reach("bounds"); } else if (mxx < 0) sx_assert(w == 0 && h == 0, "no extent without visible text");
  for (int i = 0; i < 16; i++) for (int j = 0; j < 20; j++) if (img.getPixel(i, j)) sx_assert(i >= mnx && i <= mxx && j >= mny && j <= mxy, "text is drawn within its bounds");
}
static void scaling() {
  static const float S[5] = {0.5f, 1.0f / 3.0f, 1.0f, 2.0f, 3.0f}; static uint8_t src[36], dst[81]; sx_bytes(src, 36, "px"); memset(dst, 7, 81); Image a(6, 6, ImgBufferFormat::GREY_8, src), b(9, 9, ImgBufferFormat::GREY_8, dst); int k = sx_choose(5, "scale"), sx = sx_choose(2, "sx"), sy = sx_choose(2, "sy") * 2, sw = 1 + sx_choose(6, "sw"), sh = 1 + sx_choose(3, "sh") * 2, tx = sx_choose(2, "tx") * 2, ty = sx_choose(2, "ty"); int up = k < 3 ? 1 : k - 1, down = k == 0 ? 2 : (k == 1 ? 3 : 1), ow = sw * up / down, oh = sh * up / down;
  ImageScaler sc(&a, &b, 1.0f, 0, 0, 0, 0, 0, 0); sc.setParameters(S[k], sx, sy, sw, sh, tx, ty); bool fits = sx + sw <= 6 && sy + sh <= 6 && tx + ow <= 9 && ty + oh <= 9; int8_t r = sc.apply(); sx_assert((r == 0) == fits, "scaled if both areas fit");
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) { int u = i - tx, v = j - ty; uint32_t e = 7; if (fits && u >= 0 && v >= 0 && u < ow && v < oh) e = a.getPixel(sx + u * down / up, sy + v * down / up); sx_assert(b.getPixel(i, j) == e, "scaling samples the corresponding pixels, and writes nothing else"); }
  if (!fits) sx_reach("refused"); else if (k < 2) sx_reach("down"); else sx_reach("up");
}
int sx_main() { switch (sx_choose(9, "shape")) { case 0: lines(); break; case 1: far(); break; case 2: rects(); break; case 3: roundrects(); break; case 4: triangles(); break; case 5: circles(); break; case 6: text(); break; case 7: strings(); break; default: scaling(); } return 0; }

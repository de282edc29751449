//@ reach: glyph dot big empty ink wrapped bounds tab above bitmap highcode
//@ bounds: glyphs of 0x2, 1x1 and 2x3 pixels (also 2x0 and 3x3 thorough) with every bitmap, offsets from -3 to 3, every advance, and cursors of 0 to 6 (300 thorough) by 0 to 4, at magnifications 1 and 2; texts of up to 2 characters out of a font of three glyphs with every metric of the first, at magnifications 1 and 2, and of the built-in font with tabs; bitmaps of 3x2 bytes at every 16-bit place
//@ outside: fonts with more than 255 bits in a glyph or 64 kB of bitmap; positions beyond 32767; bitmaps of more than 8 bits per pixel (one byte per pixel is drawn, whatever the format)
//@ time: 300
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Image/Image.h"
static uint8_t px[16 * 20], bits[8]; static GFXglyph G[3]; static GFXfont F;
static void font(uint8_t first) { F.bitmap = bits; F.glyph = G; F.first = first; F.last = first + 2; F.yAdvance = 5; G[1] = {4, 2, 2, 3, 0, -2}; G[2] = {0, 0, 0, 2, 0, 1}; sx_bytes(bits, 6, "bitmap"); bits[4] = 0xF0; }
static void glyph() {
  memset(px, 0, sizeof(px)); uint8_t first = sx_choose(2, "first") ? 'A' : 250; font(first); static const uint8_t WH[6][2] = {{0, 2}, {1, 1}, {2, 3}, {2, 0}, {3, 3}, {3, 2}}; const uint8_t* wh = WH[sx_choose(THOROUGH ? 5 : 3, "wh")]; int w = wh[0], h = wh[1], sz = 1 + sx_choose(2, "size");
  int xo = (int) sx_range(0, 6, "xo") - 3, yo = (int) sx_choose(3, "yo") * 2 - 3, xa = sx_u8("xa"); uint32_t x = sx_range(0, THOROUGH ? 300 : 6, "x"), y = sx_choose(3, "y") * 2; G[0] = {0, (uint8_t) w, (uint8_t) h, (uint8_t) xa, (int8_t) xo, (int8_t) yo};
  Image img(5, 5, ImgBufferFormat::GREY_8, px); img.setFont(&F); img.setTextSize(sz); img.setTextColor(7); img.textWrap(false); img.setCursor(x, y); char s[2] = {(char) first, 0}; PixUInt x1 = 99, y1 = 99, bw = 99, bh = 99; img.getTextBounds(s, x, y, &x1, &y1, &bw, &bh); img.writeString(s);
  sx_assert(img.getCursorX() == (PixUInt) (x + xa * sz) && img.getCursorY() == y, "the cursor advances by the glyph"); sx_assert(img.getFontHeight() == 5 * sz && img.getFontWidth() == (uint16_t) (xa * sz), "reported font size");
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
    int u = i - ((int) x + xo * sz), v = j - ((int) y + yo * sz); uint8_t e = 0; for (int a = 0; a < w; a++) for (int b = 0; b < h; b++) { int k = b * w + a; bool in = (u >= a * sz) & (u < (a + 1) * sz) & (v >= b * sz) & (v < (b + 1) * sz); e |= (in & (0 != (bits[k >> 3] & (0x80 >> (k & 7))))) ? 7 : 0; }
    uint8_t g = img.getPixel(i, j); sx_assert(g == e, "a glyph is drawn as its bitmap says"); sx_assert((0 == g) | ((i >= x1) & (i < x1 + bw) & (j >= y1) & (j < y1 + bh)), "glyphs are drawn within their bounds");
  }
  if (!w || !h) sx_assert(bw == 0 && bh == 0, "what has no ink has no extent");
  if (w == 1 && h == 1) sx_reach("dot"); if (sz > 1) sx_reach("big"); if (!w || !h) sx_reach("empty"); if (first > 127) sx_reach("highcode"); if (sx_branch((int) y + yo * sz < 0)) sx_reach("above"); if (sx_branch(px[0] == 7)) sx_reach("ink"); sx_reach("glyph");
}
static void texts() {
  memset(px, 0, sizeof(px)); bool custom = sx_choose(2, "custom"); uint8_t first = custom ? (sx_choose(2, "first") ? 250 : 'A') : 'A'; font(first); int sz = 1 + sx_choose(2, "size"); bool wrap = sx_choose(2, "wrap"); G[0] = {0, 2, 1, 2, 0, -1};
  if (custom) { G[0].width = sx_choose(2, "w") * 2; G[0].xOffset = (int8_t) ((int) sx_range(0, 2, "xo") - 1); G[0].xAdvance = sx_range(0, 12, "xa"); }
  Image img(14, 12, ImgBufferFormat::GREY_8, px); if (custom) img.setFont(&F); img.setTextSize(sz); img.setTextColor(7, custom ? 7 : 9); img.textWrap(wrap); int n = 1 + sx_choose(2, "n"); char s[5]; static const char* K = "AB\t\n\r"; const char KC[5] = {(char) first, (char) (first + 1), (char) (first + 2), '\n', '\r'};
  for (int i = 0; i < n; i++) { int k = sx_choose(5, "c"); s[i] = custom ? KC[k] : K[k]; } s[n] = 0; uint32_t x = sx_range(0, 20, "x"), y = sx_choose(2, "y") ? 6 : 0; PixUInt x1 = 99, y1 = 99, bw = 99, bh = 99, X1 = 99, Y1 = 99, W = 99, H = 99;
  img.setCursor(x, y); img.getTextBounds(s, x, y, &x1, &y1, &bw, &bh); img.getTextBounds((const uint8_t*) s, x, y, &X1, &Y1, &W, &H); sx_assert((x1 == X1) & (y1 == Y1) & (bw == W) & (bh == H), "bounds of one text are the same in every form"); img.writeString(s);
  int cx = x, cy = y, mnx = 9999, mny = 9999, mxx = -1, mxy = -1; bool any = false;
  for (int i = 0; i < n; i++) { if (s[i] == '\n') { cx = 0; cy += custom ? 5 * sz : 8 * sz; continue; } if (s[i] == '\r') continue; const int REP = s[i] == '\t' ? 2 : 1; if (REP == 2) sx_reach("tab");
    for (int r = 0; r < REP; r++) { int gw = 6, gh = 8, gx = 0, gy = 0, ga = 6, gl = 8; if (custom) { const GFXglyph& q = G[(uint8_t) s[i] - first]; gw = q.width; gh = q.height; gx = q.xOffset; gy = q.yOffset; ga = q.xAdvance; gl = 5; }
      if (gw && gh) { if (wrap && sx_branch(cx + (gx + gw) * sz > 14)) { cx = 0; cy += gl * sz; sx_reach("wrapped"); } int l = cx + gx * sz, t = cy + gy * sz, rr = l + gw * sz - 1, b = t + gh * sz - 1; if (sx_branch((rr >= 0) & (b >= 0))) { any = true; l = l < 0 ? 0 : l; t = t < 0 ? 0 : t; mnx = l < mnx ? l : mnx; mny = t < mny ? t : mny; mxx = rr > mxx ? rr : mxx; mxy = b > mxy ? b : mxy; } }
      cx += ga * sz; } }
  sx_assert((img.getCursorX() == cx) & (img.getCursorY() == cy), "the cursor advances by character and line");
  if (any && sx_branch((mnx < 14) & (mny < 12))) { sx_assert((x1 == mnx) & (y1 == mny) & (bw == mxx - mnx + 1) & (bh == mxy - mny + 1), "bounds contain exactly the cells of the text"); sx_reach("bounds"); } else if (!any) sx_assert((bw == 0) & (bh == 0), "no extent without visible text");
  for (int i = 0; i < 14; i++) for (int j = 0; j < 12; j++) sx_assert((0 == px[i + 14 * j]) | ((i >= mnx) & (i <= mxx) & (j >= mny) & (j <= mxy)), "text is drawn within its bounds");
}
static void bitmap() {
  memset(px, 0, sizeof(px)); Image img(4, 4, ImgBufferFormat::GREY_8, px); uint8_t m[6]; sx_bytes(m, 6, "bm"); uint32_t x = sx_u16("x"), y = sx_u16("y"); img.drawBitmap(x, y, m, 3, 2);
  for (uint32_t i = 0; i < 4; i++) for (uint32_t j = 0; j < 4; j++) { uint32_t u = (i - x) & 0xFFFF, v = (j - y) & 0xFFFF; uint8_t e = 0; for (uint32_t k = 0; k < 6; k++) e = ((u == k % 3) & (v == k / 3)) ? m[k] : e; sx_assert(img.getPixel(i, j) == e, "a bitmap is copied to its place"); } sx_reach("bitmap");
}
int sx_main() { switch (sx_choose(3, "what")) { case 0: glyph(); break; case 1: texts(); break; default: bitmap(); } return 0; }

//@ reach: done
//@ bounds: and images of 255x257, 300x301, 65535x2, 2x65535 and 1000x70 pixels in every format and orientation, at a symbolic pixel among the 25 nearest to corners, middle and multiples of 256
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Image/Image.h"
typedef ImgBufferFormat F;
static const F FMT[8] = {F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::GREY_24, F::R5_G6_B5, F::GREY_16, F::R3_G3_B2, F::GREY_8, F::MONOCHROME}; static const int BPP[8] = {32, 24, 24, 16, 16, 8, 8, 1};
static uint64_t at(int b, uint32_t w, uint32_t h, uint32_t x, uint32_t y) { return b == 1 ? (uint64_t) x * h + (h - 1 - y) : ((uint64_t) y * w + x) * (b / 8); }
int sx_main() {
  sx_budget(600000000); uint32_t heap0 = sx_heap_bytes();
  const int fi = sx_choose(8, "fmt"), bpp = BPP[fi]; const F f = FMT[fi]; static const uint32_t WH[5][2] = {{255, 257}, {300, 301}, {65535, 2}, {2, 65535}, {1000, 70}}; const int s = sx_choose(5, "size"); const uint32_t w = WH[s][0], h = WH[s][1], n = (uint32_t) (((uint64_t) w * h * bpp + 7) / 8);
  {
    Image img(w, h, f); sx_assert(img.bytesUsed() == n && img.pixels() == w * h && img.x() == w && img.y() == h && !img.allocated(), "dimensions and format"); sx_assert(img.reallocate() && img.allocated() && img.buffer(), "a large image gets its buffer");
    uint8_t* b = img.buffer(); const uint32_t X[5] = {0, 1, w / 2, w > 256 ? 256u : w - 1, w - 1}, Y[5] = {0, 1, h / 2, h > 256 ? 256u : h - 1, h - 1}; const uint32_t x = X[sx_choose(5, "x")], y = Y[sx_choose(5, "y")];
    const int rot = sx_choose(4, "rot"); img.orientation((ImgOrientation) rot); uint32_t lx, ly; { uint32_t nx = x, ny = y; if (rot >= 2) ny = h - 1 - ny; if (rot == 2) nx = w - 1 - nx; if (rot & 1) { lx = ny; ly = nx; } else { lx = nx; ly = ny; } if (rot == 3) { lx = h - 1 - y; ly = x; } if (rot == 1) { lx = y; ly = x; } }
    const uint32_t c = sx_u32("c") | 1, m = bpp == 32 ? 0xFFFFFFFFu : bpp == 1 ? 0xFFFFFFFFu : (1u << bpp) - 1, want = bpp == 1 ? 0xFFFFFFFFu : c & m;
    sx_assert(img.setPixel(lx, ly, c), "a pixel of a large image is set"); sx_assert(img.getPixel(lx, ly) == want, "a pixel of a large image reads back as set");
    const uint64_t k = at(bpp, w, h, x, y);
    if (bpp == 1) { uint8_t e = 1 << (k & 7); sx_assert(b[k >> 3] == e, "the pixel is at its place"); b[k >> 3] = 0; } else { uint32_t o = 0; for (int i = 0; i < bpp / 8; i++) o |= (uint32_t) b[k + i] << (bpp == 32 ? 8 * i : 8 * (bpp / 8 - 1 - i)); sx_assert(o == (c & m), "the pixel is at its place"); for (int i = 0; i < bpp / 8; i++) b[k + i] = 0; }
    if (rot == 0 && x == 0 && y == 0) { uint32_t t = 0; for (uint32_t i = 0; i < n; i++) t |= b[i]; sx_assert(t == 0, "setting a pixel changes only that one"); img.fill(0x55); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) sx_assert(img.getPixel(X[i], Y[j]) == (bpp == 1 ? 0xFFFFFFFFu : 0x55u), "a fill covers a large image"); const uint64_t last = at(bpp, w, h, w - 1, bpp == 1 ? 0 : h - 1); sx_assert(b[bpp == 1 ? last >> 3 : last] != 0 || bpp > 8, "a fill covers a large image"); StringBuilder o; sx_assert(0 == img.serialize(&o) && (uint32_t) o.length() == n + 10, "a large image is serialized"); Image r; sx_assert(0 == r.deserialize(o.string(), n + 10) && r.x() == w && r.y() == h && 0 == memcmp(r.buffer(), b, n), "a large image makes the round trip"); }
    sx_assert(!img.setPixel(rot & 1 ? h : w, 0, c) && !img.setPixel(0, rot & 1 ? w : h, c), "no pixels beyond the edge");
    sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

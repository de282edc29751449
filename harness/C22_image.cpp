//@ reach: set refused rgb fill roundtrip hostile hostile_ok manage convert grey
//@ bounds: pixel access at every 16-bit coordinate with every color and prior content, images of up to 3x3 pixels (2x9 monochrome), every format, orientation and flip, owned and borrowed buffers; deserializing every sequence of up to 14 bytes; 3 (4 thorough) buffer operations in a row; conversion of every color between color formats, of 27 colors to grey
//@ outside: 4-bit greyscale (not implemented by the library); sizes whose bit count exceeds 32 bits; loose colors converted by convertColor()
//@ time: 300
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Image/Image.h"
typedef ImgBufferFormat F;
static const F FMT[8] = {F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::GREY_24, F::R5_G6_B5, F::GREY_16, F::R3_G3_B2, F::GREY_8, F::MONOCHROME};
static int bpp(F f) { switch (f) { case F::R8_G8_B8_ALPHA: return 32; case F::R8_G8_B8: case F::GREY_24: return 24; case F::R5_G6_B5: case F::GREY_16: return 16; case F::R3_G3_B2: case F::GREY_8: return 8; case F::MONOCHROME: return 1; default: return 0; } }
static uint32_t bytes(uint32_t w, uint32_t h, F f) { return (w * h * bpp(f) + 7) / 8; }
static uint32_t clip(F f, uint32_t c) { int n = bpp(f); return n == 32 ? c : (n == 1 ? (c ? 0xFFFFFFFF : 0) : (c & ((1u << n) - 1))); }
static void put(uint8_t* b, uint32_t w, uint32_t h, F f, uint32_t x, uint32_t y, uint32_t c) {
  uint32_t i = y * w + x;
  switch (bpp(f)) { case 32: b[i*4] = c; b[i*4+1] = c >> 8; b[i*4+2] = c >> 16; b[i*4+3] = c >> 24; break; case 24: b[i*3] = c >> 16; b[i*3+1] = c >> 8; b[i*3+2] = c; break; case 16: b[i*2] = c >> 8; b[i*2+1] = c; break; case 8: b[i] = c; break;
    default: { uint32_t k = x * h + (h - 1 - y); if (c) b[k >> 3] |= 1 << (k & 7); else b[k >> 3] &= ~(1 << (k & 7)); } }
}
static uint32_t get(const uint8_t* b, uint32_t w, uint32_t h, F f, uint32_t x, uint32_t y) {
  uint32_t i = y * w + x;
  switch (bpp(f)) { case 32: return b[i*4] | (b[i*4+1] << 8) | (b[i*4+2] << 16) | ((uint32_t) b[i*4+3] << 24); case 24: return (b[i*3] << 16) | (b[i*3+1] << 8) | b[i*3+2]; case 16: return (b[i*2] << 8) | b[i*2+1]; case 8: return b[i];
    default: { uint32_t k = x * h + (h - 1 - y); return ((b[k >> 3] >> (k & 7)) & 1) ? 0xFFFFFFFF : 0; } }
}
static void pixels() {
  F f = FMT[sx_choose(8, "fmt")]; uint32_t w = 1 + sx_choose(f == F::MONOCHROME ? 2 : 3, "w"), h; if (f == F::MONOCHROME) { uint32_t hs[4] = {1, 3, 8, 9}; h = hs[sx_choose(4, "h")]; } else h = 1 + sx_choose(3, "h");
  bool borrowed = sx_choose(2, "borrowed"); uint32_t n = bytes(w, h, f), heap0 = sx_heap_bytes(); uint8_t ref[64]; sx_bytes(ref, n, "px"); uint8_t* ext = nullptr; Image* img;
  if (borrowed) { ext = (uint8_t*) malloc(n); memcpy(ext, ref, n); img = new Image(w, h, f, ext); } else { img = new Image(w, h, f); sx_assert(img->setBufferByCopy(ref) && img->buffer() != ref, "content by copy"); }
  sx_assert(img->bytesUsed() == n && img->pixels() == w * h && img->bitsPerPixel() == bpp(f) && img->x() == w && img->y() == h && img->format() == f && img->allocated(), "dimensions and format");
  int rot = sx_choose(4, "rot"); img->orientation((ImgOrientation) rot); bool fx = sx_choose(2, "fx"), fy = sx_choose(2, "fy"); img->flipX(fx); img->flipY(fy);
  uint32_t x = sx_u16("x"), y = sx_u16("y"), nx = x, ny = y; if (rot & 1) { nx = y; ny = x; } if (rot == 2) { nx = (w - 1 - nx) & 0xFFFF; } if (rot >= 2) { ny = (h - 1 - ny) & 0xFFFF; } if (fx) nx = (w - 1 - nx) & 0xFFFF; if (fy) ny = (h - 1 - ny) & 0xFFFF;
  bool in = sx_branch(nx < w && ny < h), rgb = sx_choose(2, "rgb"), done; uint32_t before = img->getPixel(x, y), c;
  if (rgb && f == F::R8_G8_B8_ALPHA) { delete img; free(ext); return; }
  if (rgb) { uint8_t r = sx_u8("r"), g = sx_u8("g"), b = sx_u8("b"); done = img->setPixel(x, y, r, g, b); switch (bpp(f)) { case 24: c = (r << 16) | (g << 8) | b; break; case 16: c = ((r >> 3) << 11) | ((g >> 2) << 5) | (b >> 3); break; case 8: c = ((r >> 5) << 5) | ((g >> 5) << 2) | (b >> 6); break; default: c = r | g | b; } sx_reach("rgb"); }
  else { c = sx_u32("c"); done = img->setPixel(x, y, c); }
  sx_assert(done == in, "a pixel is set if and only if it exists");
  if (in) { nx = sx_concretize(nx); ny = sx_concretize(ny); sx_assert(before == get(ref, w, h, f, nx, ny), "pixel read from its place"); put(ref, w, h, f, nx, ny, c); sx_assert(img->getPixel(x, y) == clip(f, c), "a pixel reads back as set"); sx_reach("set"); }
  else { sx_assert(before == 0 && img->getPixel(x, y) == 0, "pixels outside read as zero"); sx_reach("refused"); }
  sx_assert(0 == memcmp(img->buffer(), ref, n), "setting one pixel changes only that one"); delete img;
  if (ext) { sx_assert(0 == memcmp(ext, ref, n), "borrowed buffer left to its owner"); free(ext); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
static void filling() {
  F f = FMT[sx_choose(8, "fmt")]; uint32_t w = 1 + sx_choose(3, "w"), h = 1 + sx_choose(4, "h"), n = bytes(w, h, f), c = sx_u32("c"); uint8_t* ext = (uint8_t*) malloc(n); sx_bytes(ext, n, "px"); { Image img(w, h, f, ext); img.fill(c); for (uint32_t x = 0; x < w; x++) for (uint32_t y = 0; y < h; y++) sx_assert(img.getPixel(x, y) == clip(f, c) && get(ext, w, h, f, x, y) == clip(f, c), "fill sets every pixel"); }
  free(ext); Image none(w, h, f); none.fill(c); sx_assert(!none.setPixel(0, 0, c) && none.getPixel(0, 0) == 0, "no pixels without a buffer"); sx_reach("fill");
}
static void roundtrip() {
  F f = FMT[sx_choose(8, "fmt")]; uint32_t w = 1 + sx_choose(3, "w"), h = 1 + sx_choose(3, "h"), n = bytes(w, h, f), heap0 = sx_heap_bytes(); uint8_t src[40], out[60]; sx_bytes(src, n, "px");
  { Image img(w, h, f); img.setBufferByCopy(src); bool fx = sx_choose(2, "fx"), wrap = sx_choose(2, "wrap"); img.flipX(fx); img.textWrap(wrap); StringBuilder sb; uint32_t len = 0;
    sx_assert(0 == img.serialize(&sb) && sb.length() == (int) n + 10 && 0 == img.serialize(out, &len) && len == n + 10 && 0 == memcmp(out, sb.string(), len), "both serializers agree");
    uint8_t hd[10]; len = 0; sx_assert(0 == img.serializeWithoutBuffer(hd, &len) && len == 10 && 0 == memcmp(hd, out, 10), "header alone");
    uint8_t* exact = (uint8_t*) malloc(n + 10); memcpy(exact, out, n + 10); Image b; sx_assert(0 == b.deserialize(exact, n + 10), "an image deserializes what it serialized"); memset(exact, 0x77, n + 10); free(exact);
    sx_assert(b.x() == w && b.y() == h && b.format() == f && b.flipX() == fx && !b.flipY() && b.textWrap() == wrap && 0 == memcmp(b.buffer(), src, n), "round trip"); sx_assert(-1 == b.deserialize(out, n + 10) && 0 == memcmp(b.buffer(), src, n), "an image in use is not overwritten");
    Image e; sx_assert(-1 == e.serialize(&sb) && -1 == e.serialize(out, &len), "nothing to serialize"); }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned"); sx_reach("roundtrip");
}
static void hostile() {
  uint32_t n = sx_choose(15, "n"), heap0 = sx_heap_bytes(); uint8_t raw[16]; sx_bytes(raw, n, "raw"); uint8_t* b = (uint8_t*) malloc(n ? n : 1); memcpy(b, raw, n);
  { Image img; int8_t r = img.deserialize(b, n); free(b);
    if (r == 0) { uint32_t w = (raw[0] << 24) | (raw[1] << 16) | (raw[2] << 8) | raw[3], h = (raw[4] << 24) | (raw[5] << 16) | (raw[6] << 8) | raw[7]; F f = (F) raw[8]; sx_assert(n > 10 && img.x() == w && img.y() == h && img.format() == f && img.bytesUsed() == n - 10 && 0 == memcmp(img.buffer(), raw + 10, n - 10), "a deserialized image is what the sender declared"); sx_assert((uint64_t) w * h * img.bitsPerPixel() <= (n - 10) * 8, "content covers the image"); img.getPixel(w - 1, h - 1); img.setPixel(w - 1, h - 1, 5); sx_reach("hostile_ok"); }
    else { sx_assert(!img.allocated() && img.format() == F::UNALLOCATED && img.x() == 0 && img.y() == 0, "a refused image leaves nothing"); sx_reach("hostile"); } }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
}
static void manage() {
  uint32_t heap0 = sx_heap_bytes(); uint8_t* ext[2] = {nullptr, nullptr}; uint8_t src[16]; memset(src, 0x5C, 16); uint32_t w = 2, h = 2; F f = FMT[sx_choose(3, "fmt") * 3 + 1]; bool owned = false, have = false; uint8_t ref[16]; Image* img = new Image(w, h, f); static const F ALT[3] = {F::GREY_8, F::R8_G8_B8, F::R5_G6_B5}; int ne = 0;
  for (int i = 0; i < (THOROUGH ? 4 : 3); i++) {
    switch (sx_choose(6, "op")) {
      case 0: if (ne < 2) { uint8_t* e = ext[ne++] = (uint8_t*) malloc(12); memset(e, 0x11 * ne, 12); bool r = img->setBuffer(e); sx_assert(r == (f != F::UNALLOCATED), "a buffer needs a format"); if (r) { memset(ref, 0x11 * ne, 12); have = true; owned = false; sx_assert(img->buffer() == e, "borrowed buffer in place"); } } break;
      case 1: if (ne < 2) { uint8_t* e = ext[ne++] = (uint8_t*) malloc(12); memset(e, 0x11 * ne, 12); f = ALT[sx_choose(3, "alt")]; sx_assert(img->setBuffer(e, f) && img->buffer() == e, "borrowed buffer with format"); memset(ref, 0x11 * ne, 12); have = true; owned = false; } break;
      case 2: { F g = sx_choose(2, "same") ? f : ALT[sx_choose(3, "alt")]; bool ok = g != F::UNALLOCATED && (!have || owned || bpp(g) == bpp(f)), r = (g == f && sx_choose(2, "short")) ? img->setBufferByCopy(src) : img->setBufferByCopy(src, g); sx_assert(r == ok, "copy in, unless a borrowed buffer is too small for it"); if (r) { f = g; if (!have) owned = true; have = true; memcpy(ref, src, 12); sx_assert(img->buffer() != src, "copied"); } } break;
      case 3: { uint32_t nw = sx_choose(3, "nw"), nh = 1 + sx_choose(2, "nh"); bool r = img->setSize(nw, nh); sx_assert(r == (f != F::UNALLOCATED && !(have && !owned)), "resized, unless the buffer is borrowed"); if (!(have && !owned)) { w = nw; h = nh; } if (r) { have = owned = true; memset(ref, 0, 16); } } break;
      case 4: { bool r = img->reallocate(); sx_assert(r == (f != F::UNALLOCATED && !(have && !owned)), "reallocated, unless the buffer is borrowed"); if (r) { have = owned = true; memset(ref, 0, 16); } } break;
      default: img->wipe(); w = h = 0; f = F::UNALLOCATED; have = owned = false; break;
    }
    sx_assert(img->x() == w && img->y() == h && img->format() == f && img->allocated() == have, "size, format and buffer as last established");
    if (have) { sx_assert(img->bytesUsed() == bytes(w, h, f) && 0 == memcmp(img->buffer(), ref, bytes(w, h, f)), "content as last established"); if (w) { img->setPixel(w - 1, h - 1, img->getPixel(w - 1, h - 1)); } }
    for (int k = 0; k < ne; k++) for (int j = 0; j < 12; j++) sx_assert(ext[k][j] == 0x11 * (k + 1) || img->buffer() == ext[k] || ext[k][j] == 0x5C, "borrowed buffers survive");
  }
  delete img; for (int k = 0; k < 2; k++) free(ext[k]); sx_assert(sx_heap_bytes() == heap0, "all memory returned"); sx_reach("manage");
}
static void convert() {
  static const F CF[4] = {F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2}; F s = CF[sx_choose(4, "from")], t = CF[sx_choose(4, "to")]; uint32_t c = sx_u32("c"); uint8_t buf[4]; Image img(1, 1, s, buf); img.setPixel(0, 0, c); uint32_t o = img.getPixelAsFormat(0, 0, t), r, g, b, a = 0;
  switch (s) { case F::R8_G8_B8_ALPHA: r = c >> 24; g = (c >> 16) & 255; b = (c >> 8) & 255; a = c & 255; break; case F::R8_G8_B8: r = (c >> 16) & 255; g = (c >> 8) & 255; b = c & 255; break; case F::R5_G6_B5: r = ((c >> 11) & 31) << 3; g = ((c >> 5) & 63) << 2; b = (c & 31) << 3; break; default: r = ((c >> 5) & 7) << 5; g = ((c >> 2) & 7) << 5; b = (c & 3) << 6; }
  uint32_t e; switch (t) { case F::R8_G8_B8_ALPHA: e = (r << 24) | (g << 16) | (b << 8) | a; break; case F::R8_G8_B8: e = (r << 16) | (g << 8) | b; break; case F::R5_G6_B5: e = ((r >> 3) << 11) | ((g >> 2) << 5) | (b >> 3); break; default: e = ((r >> 5) << 5) | ((g >> 5) << 2) | (b >> 6); }
  sx_assert(o == e, "colors keep their most significant bits"); sx_assert(img.getPixelAsFormat(0, 0, F::MONOCHROME) == (clip(s, c) ? 0xFFFFFFFF : 0), "monochrome is lit unless black"); sx_reach("convert");
}
static void grey() {
  static const uint8_t L[3] = {0, 128, 255}; uint32_t r = L[sx_choose(3, "r")], g = L[sx_choose(3, "g")], b = L[sx_choose(3, "b")]; uint8_t buf[4]; static const F CF[3] = {F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2}; F s = CF[sx_choose(3, "from")]; Image img(1, 1, s, buf); img.setPixel(0, 0, (uint8_t) r, (uint8_t) g, (uint8_t) b);
  uint32_t full = img.getPixelAsFormat(0, 0, F::R8_G8_B8); r = full >> 16; g = (full >> 8) & 255; b = full & 255; uint64_t lum = r * 300 + g * 590 + b * 110; /* of 255000 */ static const F GF[4] = {F::GREY_24, F::GREY_16, F::GREY_8, F::GREY_4}; static const int GB[4] = {24, 16, 8, 4}; int k = sx_choose(4, "to"); uint64_t max = (1u << GB[k]) - 1, o = img.getPixelAsFormat(0, 0, GF[k]), e = max * lum / 255000, tol = 1 + max / 100000; sx_assert(o <= max && o <= e + tol && o + tol >= e, "grey is the weighted luminance, in the range of the format"); sx_reach("grey");
}
int sx_main() { switch (sx_choose(7, "shape")) { case 0: pixels(); break; case 1: filling(); break; case 2: roundtrip(); break; case 3: hostile(); break; case 4: manage(); break; case 5: convert(); break; default: grey(); } return 0; }

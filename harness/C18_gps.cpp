//@ reach: lowercase whole torn many bad unknown blank long plain callback nocallback damaged date baddate sats coord alt noalt dop speed nospeed frac badfrac junk far near culled complete short
//@ bounds: streams of 2 (thorough 3) lines of eight kinds (three good sentences, a damaged one, an unknown one, one without checksum, an empty line, an overlong line), torn at any two places into pushes and fragments; all seven kinds of sentence, cut after each of their fields; every single altered byte (any printable value other than a comma-free terminator) of a sentence of 32 bytes; a sentence with every checksum, written with digits of either case; every date and time of twelve digits; every two-digit satellite count; fractional fields of up to 4 (thorough 5) characters; up to 2 (thorough 3) arbitrary bytes at the end of a sentence; coordinates, altitudes, dilutions, speeds and distances over a grid of constants
//@ outside: that floating-point results are right for values off the grid; sentences of more than 140 bytes; what sentences say that no frame carries (satellites in view, error deviations, the validity flag); the order of bytes that were discarded because no line ended within 1024 bytes
#include "plat.h"
#include "rt_common.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int calls; static LocationFrame last; static bool usecb = true;
static int8_t cb(LocationFrame* f) { calls++; last.copyFrame(f); return 0; }
static char out[700]; static int on;
static void put(const char* s) { while (*s) out[on++] = *s++; }
static char hx(uint8_t n) { return (char) (n + '0' + ((n > 9) ? 7 : 0)); }
static void sum(const char* body) { uint8_t x = 0; put("$"); for (const char* s = body; *s; s++) x ^= (uint8_t) *s; put(body); out[on++] = '*'; out[on++] = hx(x >> 4); out[on++] = hx(x & 15); put("\r\n"); }
static void plain(const char* body) { put("$"); put(body); put("\r\n"); }
static void flush() { for (int i = 0; i < 160; i++) out[on++] = 'x'; out[on++] = '\n'; }   // An overlong line: rejected as one, and it is past the size at which lines are looked for.
static const char* VTG = "GPVTG,054.7,T,034.5,M,005.5,N,036.0,K";
static void push(GPSWrapper* g, int a, int b) { if (a < b) { StringBuilder s; s.concat((uint8_t*) out + a, b - a); sx_assert(g->pushBuffer(&s) == 1, "a parser takes all it is given"); sx_assert(s.isEmpty(), "a parser claims what it takes"); } }
static bool near_(double a, double b, double tol) { double d = a - b; return (d < 0 ? -d : d) <= tol; }
static void framing() {
  GPSWrapper g; usecb = true; g.setCallback(cb); g.init(); calls = 0; on = 0; int good = 0, bad = 0, vt = 0; int ends[8], ne = 0;
  for (int i = 0; i < (THOROUGH ? 3 : 2); i++) {
    int k = sx_choose(i ? 8 : 9, "kind"); if (k == 8) { g.setCallback(nullptr); usecb = false; k = 0; }
    switch (k) {
      case 0: sum(VTG); good++; vt++; break;
      case 1: sum("GPGSV,4,4,13,39,31,170,27"); good++; break;
      case 2: sum("GPGLL,3723.2475,N,12158.3416,W,161229.487,A,A"); good++; break;
      case 3: sum(VTG); out[on - 20] ^= 1; bad++; sx_reach("bad"); break;
      case 4: sum("GPXYZ,1,2,3"); bad++; sx_reach("unknown"); break;
      case 5: plain(VTG); good++; vt++; sx_reach("plain"); break;
      case 6: put("\n"); sx_reach("blank"); break;
      case 7: for (int k = 0; k < 200; k++) out[on++] = k % 50 ? 'A' : '$'; put("\n"); bad++; sx_reach("long"); break;
    }
    ends[ne++] = on;
  }
  flush(); bad++;
  int c1 = sx_choose(4, "near"), c2;   // Places to tear: around the ends of the lines, and within them.
  switch (c1) { case 0: c1 = 0; break; case 1: c1 = ends[0] - 1 + sx_choose(3, "off"); break; case 2: c1 = ends[0] / 2; break; default: c1 = ends[ne - 1] - 1 + sx_choose(3, "off"); break; }
  c2 = sx_choose(2, "second") ? c1 + 1 : on - 1; if (c2 > on) c2 = on; if (c1 < 0) c1 = 0;
  if (sx_choose(2, "many")) { push(&g, 0, c1); push(&g, c1, c2); push(&g, c2, on); sx_reach("torn"); }
  else { StringBuilder s; if (c1) s.concat((uint8_t*) out, c1); if (c2 > c1) s.concat((uint8_t*) out + c1, c2 - c1); if (on > c2) s.concat((uint8_t*) out + c2, on - c2); sx_assert(g.pushBuffer(&s) == 1 && s.isEmpty(), "a parser claims what it takes"); sx_reach(c1 ? "many" : "whole"); }
  sx_assert(g.sentencesParsed() == (uint32_t) good, "each good sentence is parsed, once, wherever the stream was torn");
  sx_assert(g.sentencesRejected() == (uint32_t) bad, "each bad sentence is rejected, once, and only those");
  sx_assert(calls == (usecb ? vt : 0), "the callback is told of each velocity, and of nothing else"); sx_reach(usecb ? "callback" : "nocallback");
  if (calls) sx_assert(near_(last.mag_bearing, 34.5, 0.001) && last.speed == 10000, "the callback is given what the sentence said");
  sx_assert(g.bufferAvailable() == 1024, "no line is left behind");
}
static void check() {   // Any alteration of one byte is caught by the checksum.
  GPSWrapper g; g.setCallback(cb); calls = 0; on = 0; sum("GPGSV,4,4,13,39,31,170,27"); int body = on - 5;
  int at = sx_choose(on - 3, "at"); if (at >= body) at++;   // Without the star there is no checksum to speak of.
  uint8_t v = sx_u8("v"), old = (uint8_t) out[at]; sx_assume(v != old && v > 31 && v < 127);
  if (at > body) sx_assume((v | 32) != (old | 32) || v < 64);   // Checksum digits may be of either case.
  if (at < body) sx_assume(v != '*');
  out[at] = (char) v; flush(); push(&g, 0, on);
  sx_assert(g.sentencesParsed() == 0 && g.sentencesRejected() == 2 && calls == 0, "a sentence with an altered byte is not believed"); sx_reach("damaged");
}
static void digits() {   // The digits of a checksum may be of either case.
  GPSWrapper g; g.setCallback(cb); calls = 0; on = 0; put("$GPVTG,0__.7,T,034.5,M,005.5,N,036.0,K*"); for (int i = 8; i < 10; i++) out[i] = (char) sx_range('0', '9', "d"); uint8_t x = 0; for (int i = 1; i < on - 1; i++) x ^= (uint8_t) out[i];
  bool up = sx_choose(2, "upper"); for (int i = 0; i < 2; i++) { uint8_t n = i ? (x & 15) : (x >> 4); out[on++] = (char) (n + '0' + ((n > 9) ? (up ? 7 : 39) : 0)); } put("\r\n"); flush(); push(&g, 0, on); sx_assert(g.sentencesParsed() == 1 && calls == 1, "a checksum that fits is believed, whichever case its digits are of"); sx_reach("lowercase");
}
static uint32_t d2(char* p, const char* nm) { p[0] = '0' + (char) sx_range(0, 9, nm); p[1] = '0' + (char) sx_range(0, 9, nm); return (uint32_t) (p[0] - '0') * 10 + (p[1] - '0'); }
static void when() {
  GPSWrapper g; g.setCallback(cb); calls = 0; on = 0; last.timestamp = 0;
  char s[] = "GPRMC,hhmmss,A,3751.65,S,14507.36,E,000.0,360.0,DDMMYY,011.3,E"; char* t = strchr(s, 'h'); char* d = strstr(s, "DDMM");
  uint32_t hh = 23, mm = 59, ss = 8, D = 29, M = 2, Y = 24;
  if (sx_choose(2, "date")) { memcpy(t, "235908", 6); D = d2(d, "D"); M = d2(d + 2, "M"); Y = d2(d + 4, "Y"); } else { memcpy(d, "290224", 6); hh = d2(t, "h"); mm = d2(t + 2, "m"); ss = d2(t + 4, "s"); }
  plain(s); sum(VTG); flush(); push(&g, 0, on); sx_assert(g.sentencesParsed() == 2 && calls == 1, "position and velocity are parsed");
  if (sx_branch(hh > 23 || mm > 59 || ss > 60 || D < 1 || D > 31 || M < 1 || M > 12)) { sx_assert(last.timestamp == 0, "an impossible date or time sets no timestamp"); sx_reach("baddate"); return; }
  if (sx_branch(Y > 37)) return;   // Past what this platform's time_t can say.
  M = sx_concretize(M); Y = sx_concretize(Y);
  uint32_t y = 4 + Y - (M <= 2 ? 1 : 0), mp = M + (M <= 2 ? 9 : 0xFFFFFFFDu), days = 9556 + y * 365 + y / 4 + (153 * mp + 2) / 5 + D - 1;   // From 1996-03-01, day 9556.
  uint64_t want = (uint64_t) days * 86400 + hh * 3600 + mm * 60 + ss;
  sx_assert(last.timestamp == want, "the timestamp is the seconds since 1970 of the date and time, in UTC"); sx_reach("date");
}
static void run(GPSWrapper* g, const char* body, bool ok) { g->setCallback(cb); calls = 0; on = 0; uint32_t p0 = g->sentencesParsed(); plain(body); sum(VTG); flush(); push(g, 0, on); sx_assert(g->sentencesParsed() - p0 == (ok ? 2u : 1u), "a sentence is parsed if its fields are well formed, and only then"); sx_assert(calls == 1, "the callback is told of each velocity, and of nothing else"); }
static void values() {
  GPSWrapper g; char b[120];
  switch (sx_choose(6, "value")) {
    case 0: { char s[] = "GPGGA,123519,4807.038,N,01131.000,E,1,__,0.9,545.4,M,46.9,M,,"; uint32_t n = d2(strchr(s, '_'), "sats"); run(&g, s, true); sx_assert(last.sat_count == n && last.altitude >= 545399 && last.altitude <= 545401, "satellites and altitude are as in the sentence"); sx_reach("sats"); break; }
    case 1: {
      static const struct { const char *la, *lo; double a, o; } G[] = {{"3751.65,S", "14507.36,E", -37.860833333, 145.122666667}, {"0000.00000001,N", "00000.000000001,W", 0, 0}, {"9000.0000000,N", "18000.00000,W", 90, -180}, {"0012.3456789,S", "00059.99999999,E", -0.205761315, 0.99999999},
        {"00.12345678,N", "01131.000,W", 0.002057613, -11.516666667}, {"5959.9999999,N", "05959.99,E", 59.9999999983, 59.9998333}, {"3.5,N", "12.25,E", 0.058333333, 0.204166667}, {" 4807.038,N", "+01131,E", 48.1173, 11.516666667}, {"1.123456789,S", "59.123456789,W", -0.018724279816, -0.985390946483}};
      int i = sx_choose(9, "coord"); on = 0; put("GPRMC,,A,"); put(G[i].la); put(","); put(G[i].lo); put(",000.0,360.0,,011.3,E"); out[on] = 0; strcpy(b, out); run(&g, b, true);
      sx_assert(near_(last.lat, G[i].a, 2e-5) && near_(last.lon, G[i].o, 2e-5), "a coordinate is degrees and minutes, signed by its hemisphere"); sx_assert(last.timestamp == 0, "an empty date sets no timestamp"); sx_reach("coord"); break; }
    case 2: {
      static const struct { const char* t; int64_t mm; } A[] = {{"545.4", 545400}, {"-12.5", -12500}, {"0", 0}, {"8848", 8848000}, {"0.001", 1}, {"17.25", 17250}};
      int i = sx_choose(6, "alt"); on = 0; put("GPGGA,,,,,,1,08,0.9,"); put(A[i].t); put(",M,46.9,M,,"); out[on] = 0; strcpy(b, out); run(&g, b, true); int64_t d = (int64_t) (int32_t) last.altitude - A[i].mm; sx_assert(d >= -1 && d <= 1, "an altitude in metres is given in millimetres"); sx_reach("alt");
      uint32_t was = last.altitude; run(&g, sx_choose(2, "unit") ? "GPGGA,,,,,,0,00,,,M,,M,," : "GPGGA,,,,,,0,00,,99.5,F,,M,,", true); sx_assert(last.altitude == was && last.sat_count == 0, "an altitude that is missing, or not in metres, changes nothing"); sx_reach("noalt"); break; }
    case 3: { run(&g, "GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1", true); sx_assert(near_(last.dop_horiz, 1.3, 1e-5) && near_(last.dop_vert, 2.1, 1e-5), "dilutions of precision are as in the sentence"); sx_reach("dop"); break; }
    case 4: {
      static const struct { const char *v; double b; uint32_t s; } V[] = {{"GPVTG,156.1,T,140.9,M,0.0,N,0.0,K", 140.9, 0}, {"GPVTG,096.5,T,083.5,M,0.0,N,36.0,K,D", 83.5, 10000}, {"GPVTG,188.36,T,007.25,M,0.820,N,1.519,K,A", 7.25, 421}, {"GPVTG,1,T,2,M,3,N,900,K", 2, 250000}};
      int i = sx_choose(4, "speed"); g.setCallback(cb); calls = 0; on = 0; sum(V[i].v); flush(); push(&g, 0, on); sx_assert(calls == 1 && near_(last.mag_bearing, V[i].b, 1e-4) && last.speed + 1 >= V[i].s && last.speed <= V[i].s + 1, "speed and bearing are as in the sentence"); sx_reach("speed");
      uint32_t was = last.speed; on = 0; sum("GPVTG,188.36,T,12.5,M,,N,,K,A"); flush(); push(&g, 0, on); sx_assert(calls == 2 && last.speed == was, "a missing speed changes nothing"); sx_reach("nospeed");
      on = 0; sum(sx_choose(2, "wrong") ? "GPVTG,188.36,T,,M,0.820,N,1.519,X,A" : "GPVTG,188.36,M,,T,0.820,N,1.519,K"); flush(); push(&g, 0, on); sx_assert(calls == 2, "a velocity in other units is not believed"); break; }
    default: {   // A fractional field of any characters.
      int n = 1 + sx_choose(THOROUGH ? 5 : 4, "n"); char f[6]; on = 0; put("GPGLL,"); bool ok = true, sg = false, dg = false, dot = false;
      for (int i = 0; i < n; i++) {
        static const char C[] = "0 .-+"; int k = sx_choose(6, "c"); char c; if (k == 5) { c = (char) sx_u8("c"); sx_assume((c > '9' || c == '/') && c < 127); ok = false; } else if (k == 0) c = (char) ('0' + sx_range(0, 9, "d")); else c = C[k];
        f[i] = c; if (k == 0) dg = true; else if (k == 2) { if (dot) ok = false; dot = true; } else if (k == 1) { if (sg || dg || dot) ok = false; } else if (k != 5) { if (sg || dg) ok = false; sg = true; }
        out[on++] = f[i]; }
      if ((sg || dot) && !dg) ok = false;
      put(",N,12158.3416,W,161229.487,A"); out[on] = 0; strcpy(b, out); run(&g, b, ok); sx_reach(ok ? "frac" : "badfrac"); break; }
  }
}
static void junk() {   // Arbitrary bytes where fields should be: nothing is read or written out of bounds, and the lines are accounted for.
  GPSWrapper g; g.setCallback(cb); calls = 0; on = 0; static const char* H[] = {"$GPGSV,1,", "$GPGLL,3723.2475,N,12158.3416,W,1612", "$GPVTG,1,T,2,M,3,N,4,K", "$GPGLL,12.5,N,12.5,W,"};
  put(H[sx_choose(4, "head")]); int n = THOROUGH ? 3 : 2; for (int i = 0; i < n; i++) { out[on] = (char) sx_u8("j"); sx_assume(out[on] != '\n'); on++; } if (sx_choose(2, "cr")) put("\r"); put("\n"); flush();
  push(&g, 0, on); sx_assert(g.sentencesParsed() + g.sentencesRejected() == 2 && calls <= 1, "every line is parsed or rejected"); sx_reach("junk");
}
static void fields() {   // A sentence that lacks a field is not believed, unless the field is optional.
  static const struct { const char* s; int need; } K[] = {{"GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", 14}, {"GPRMC,081836,A,3751.65,S,14507.36,E,000.0,360.0,130998,011.3,E", 11}, {"GPGSA,A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1", 17}, {"GPGLL,3723.2475,N,12158.3416,W,161229.487,A,A", 6},
    {"GPGST,024603.00,3.2,6.6,4.7,47.3,5.8,5.6,22.0", 8}, {"GPGSV,3,1,11,03,03,111,00,04,15,270,00", 3}, {"GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,A", 8}, {"GPRMC,,V,,,,,,,,,N", 11}, {"GPGLL,,,,,,V", 6}};
  GPSWrapper g; g.setCallback(cb); int k = sx_choose(9, "kind"), n = 0, last = 0; for (const char* p = K[k].s; *p; p++) if (*p == ',') last++;
if (sx_choose(8, "dir") == 0) { on = 0; char c = (char) sx_u8("c"); bool ok = sx_branch(c == 'N' || c == 'E' || c == 'S' || c == 'W'); sx_assume(c > 31 && c < 127 && c != ',' && c != '*'); put("$GPGLL,3723.2475,"); out[on++] = c; put(",12158.3416,W,161229.487,A\r\n"); flush(); push(&g, 0, on); sx_assert(g.sentencesParsed() == (ok ? 1u : 0u), "a direction is one of four letters"); return; }
  int keep = sx_choose(last + 1, "keep"); on = 0; char b[120]; const char* p = K[k].s; int at = 0; for (; *p; p++) { if (*p == ',' && n++ == keep) break; b[at++] = *p; } b[at] = 0;
  if (sx_choose(2, "sum")) sum(b); else plain(b); flush(); push(&g, 0, on); sx_assert(g.sentencesParsed() == (keep >= K[k].need ? 1u : 0u) && g.sentencesRejected() == (keep >= K[k].need ? 1u : 2u), "a sentence that lacks a field is not believed"); sx_reach(keep >= K[k].need ? "complete" : "short");
}
static void cull() {   // A stream without lines does not fill memory, and does not stop the parser.
  GPSWrapper g; g.setCallback(cb); calls = 0; on = 0; for (int i = 0; i < 600; i++) out[on++] = 'z'; push(&g, 0, on); sx_assert(g.bufferAvailable() == 424, "room is what is not held"); push(&g, 0, on); sx_assert(g.bufferAvailable() == 0, "no more than 1024 bytes are held back"); sx_reach("culled");
  on = 0; if (sx_choose(2, "break")) { put("\n"); int n = on; sum(VTG); n = on - n - sx_choose(4, "cut"); push(&g, 0, n + 1); sx_assert(g.sentencesRejected() == 1, "what is no sentence is rejected"); int m = on; flush(); push(&g, n + 1, m); push(&g, m, on); sx_assert(g.sentencesParsed() == 1 && calls == 1 && g.sentencesRejected() == 2, "a parser finds the sentences again after noise"); }
}
static void dist() {
  static const struct { double a, b, c, d; int32_t m; } D[] = {{0, 0, 0, 1, 111195}, {0, 0, 1, 0, 111195}, {50.066389, -5.714722, 58.643889, -3.07, 968854}, {10, 20, 10, 20, 0}, {0, 0, 0, 180, 20015115}, {90, 0, -90, 77, 20015115}, {-33.9, 151.2, 34.05, -118.25, 12069000}};
  int i = sx_choose(7, "pair"); LocationFrame p, q; p.lat = D[i].a; p.lon = D[i].b; q.lat = D[i].c; q.lon = D[i].d; if (sx_choose(2, "swap")) { LocationFrame t; t.copyFrame(&p); p.copyFrame(&q); q.copyFrame(&t); }
  int32_t r = GPSWrapper::haversineDistance(&p, &q), tol = 20 + D[i].m / 1000; sx_assert(r >= D[i].m - tol && r <= D[i].m + tol, "a distance is along the great circle, in metres"); sx_reach(D[i].m ? "far" : "near");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(9, "part")) { case 8: digits(); break; case 6: fields(); break; case 0: framing(); break; case 1: check(); break; case 2: when(); break; case 3: values(); break; case 4: junk(); break; case 5: cull(); break; default: dist(); break; }
  sx_assert(sx_heap_bytes() == heap0, "every byte taken from the heap is returned");
  return 0;
}

//@ reach: names prefixes string single unknown ends gpio_mode gpio_val gpio_refused listed log flags modes init reboot
//@ bounds: every unit, prefix, line end, pin mode and severity code; unit strings of up to 4 (thorough 5) parts of 9 kinds, every unit and argument in one of them, in buffers that end with them; the gpio command with 11 pins in and out of range, 14 modes and 4 values, every return of the platform; every state and set of flags of a platform
//@ outside: unit strings that are cut short, or hold literals (declared unfinished in the source)
#include "plat.h"
#include "rt_common.h"
#include "EnumeratedTypeCodes.h"
struct U { uint8_t c; const char* l; const char* s; };
static const U UNITS[] = { {0, "(unitless)", ""}, {1, "seconds", "s"}, {2, "meters", "m"}, {3, "grams", "g"}, {4, "Amps", "A"}, {5, "Kelvin", "K"}, {6, "mol", "mol"}, {7, "candela", "cd"}, {8, "counts", ""}, {9, "degrees", "deg"}, {10, "radians", "rad"}, {11, "steradians", "str"}, {12, "pH", "pH"}, {13, "dB", "dB"}, {14, "g's", "g's"}, {0x40, "Coulombs", "Q"}, {0x41, "Volts", "V"}, {0x42, "Farads", "F"}, {0x43, "Ohms", "Ohms"}, {0x44, "Webers", "Wb"}, {0x45, "Teslas", "T"}, {0x46, "lumens", "lm"}, {0x47, "Hertz", "Hz"}, {0x48, "Newtons", "N"}, {0x49, "Pascals", "Pa"}, {0x4A, "Joules", "J"}, {0x4B, "Watts", "W"}, {0x4C, "Celcius", "C"}, {0xC0, "pi", "pi"}, {0xC1, "e", "e"}, {0xC2, "c", "c"}, {0xC3, "G", "G"}, {0xF8, "^", "^"}, {0xF9, "+", "+"}, {0xFA, "-", "-"}, {0xFB, "*", "*"}, {0xFC, "/", "/"}, {0xFD, "(", "("}, {0xFE, ")", ")"} };
struct P { int8_t o; const char* l; const char* s; }; static const P PREF[] = { {-15, "femto", "f"}, {-12, "pico", "p"}, {-9, "nano", "n"}, {-6, "micro", "u"}, {-3, "milli", "m"}, {-2, "centi", "c"}, {-1, "deci", "d"}, {1, "deca", "da"}, {2, "hecto", "h"}, {3, "kilo", "k"}, {6, "mega", "M"}, {9, "giga", "G"}, {12, "tera", "T"}, {15, "peta", "P"} };
static const char* unit(uint8_t c, bool sym) { for (const U& u : UNITS) if (sx_branch(u.c == c)) return sym ? u.s : u.l; sx_reach("unknown"); return ""; }
static const char* prefix(int8_t o, bool sym) { for (const P& p : PREF) if (sx_branch(p.o == o)) return sym ? p.s : p.l; return ""; }
static uint8_t pin_called, mode_called, val_called; static int calls; static int8_t answer;
int8_t pinMode(uint8_t p, GPIOMode m) { calls++; pin_called = p; mode_called = (uint8_t) m; return answer; }
int8_t setPin(uint8_t p, bool v) { calls++; pin_called = p; val_called = v; return answer; }
int8_t readPin(uint8_t p) { calls++; pin_called = p; val_called = 9; return answer; }
struct Plat : public AbstractPlatform { int inits = 0, prints = 0, resets = 0; uint8_t code = 0; int8_t ret = 0; Plat() : AbstractPlatform("board") {} int8_t init() override { inits++; return ret; } void printDebug(StringBuilder*) override { prints++; } void firmware_reset(uint8_t c) override { resets++; code = c; } void firmware_shutdown(uint8_t) override {} using AbstractPlatform::_pflags; using AbstractPlatform::_alter_flags; using AbstractPlatform::_check_flags; using AbstractPlatform::_set_init_state; using AbstractPlatform::_discover_alu_params; };
static Plat* plat; AbstractPlatform* platformObj() { return plat; }
static uint8_t log_sev; static const char* log_tag; static char log_text[64]; static int logs; static void hook(uint8_t l, const char* t, StringBuilder* s) { logs++; log_sev = l; log_tag = t; int n = s->length(); if (n < 64) { s->copyToBuffer((uint8_t*) log_text, n); log_text[n] = 0; } }
int sx_main() {
  uint32_t heap0 = sx_heap_bytes(); Plat pl; plat = &pl;
  switch (sx_choose(6, "part")) {
    case 0: { bool sym = sx_choose(2, "sym"); uint8_t c = sx_u8("code"); const char* w = unit(c, sym); sx_assert(0 == strcmp(SIUnitToStr((SIUnit) c, sym), w), "every unit has its name and its symbol"); sx_assert(SIUnitToInt(IntToSIUnit(c)) == c, "a unit is its code"); sx_reach("names"); } break;
    case 1: { bool sym = sx_choose(2, "sym"); int8_t o = (int8_t) sx_u8("order"); const char* w = prefix(o, sym); SIUnit s[5] = {SIUnit::UNIT_GRAMMAR_MARKER, SIUnit::META_ORDER_OF_MAGNITUDE, (SIUnit) o, SIUnit::METERS, SIUnit::UNITLESS}; StringBuilder b; SIUnitToStr(s, &b, sym); StringBuilder e; e.concat(w); e.concat(sym ? "m" : "meters"); sx_assert(b.length() == e.length() && 0 == memcmp(b.string(), e.string(), e.length()), "every order of magnitude has its prefix"); sx_reach("prefixes"); } break;
    case 2: {
      bool sym = sx_choose(2, "sym"); int n = sx_choose((THOROUGH ? 5 : 4) + 1, "parts"); uint8_t s[20]; int l = 0; StringBuilder e; e.concat("="); static const int8_t EX[] = {1, 2, -1, 100, -128}; static const int8_t OM[] = {-6, 0, 3, 5};
      if (n == 0) { uint8_t c = sx_u8("single"); sx_assume(c != 0xF7); const char* w = unit(c, sym); uint8_t* h = (uint8_t*) malloc(1); h[0] = c; StringBuilder b; b.concat("="); SIUnitToStr((SIUnit*) h, &b, sym); SIUnitToStr(nullptr, &b, sym); e.concat(w); sx_assert(b.length() == e.length() && 0 == memcmp(b.string(), e.string(), e.length()), "a single unit is rendered as it is"); free(h); sx_reach("single"); break; }
      int free_at = sx_choose(n, "free"); s[l++] = 0xF7;
      for (int i = 0; i < n; i++) switch (i == free_at ? sx_choose(9, "kind") : (i * 2 + n) % 5) {
        case 0: s[l++] = 0x48; e.concat(unit(0x48, sym)); break; case 1: s[l++] = 0xFB; e.concat("*"); break; case 2: s[l++] = 0xFD; e.concat("("); break; case 3: s[l++] = 0xC0; e.concat("pi"); break; case 4: s[l++] = 1; e.concat(unit(1, sym)); break;
        case 5: { uint8_t c = sx_u8("unit"); sx_assume(c != 0 && (c < 0xF0 || (c > 0xF8 && c < 0xFF))); s[l++] = c; e.concat(unit(c, sym)); } break;
        case 6: { int8_t o = OM[sx_choose(4, "order")]; s[l++] = 0xF0; s[l++] = (uint8_t) o; e.concat(prefix(o, sym)); } break;
        case 7: { s[l++] = sx_choose(2, "constant") ? 0xF1 : 0xF2; s[l++] = sx_u8("arg"); } break;
        default: { int8_t x = EX[sx_choose(5, "exponent")]; s[l++] = 0xF8; s[l++] = (uint8_t) x; e.concat("^"); char t[8]; sprintf(t, "%d", x); e.concat(t); } break;
      }
      s[l++] = 0; uint8_t* h = (uint8_t*) malloc(l); memcpy(h, s, l); StringBuilder b; b.concat("="); SIUnitToStr((const SIUnit*) h, &b, sym); sx_assert(b.length() == e.length() && 0 == memcmp(b.string(), e.string(), e.length()), "a unit string is rendered part by part"); sx_assert(0 == memcmp(h, s, l), "a unit string is left as it is"); free(h); sx_reach("string");
    } break;
    case 3: {
      uint8_t c = sx_u8("line end"); int k = sx_branch(c == (uint8_t) LineTerm::ZEROBYTE) ? 0 : sx_branch(c == (uint8_t) LineTerm::CR) ? 1 : sx_branch(c == (uint8_t) LineTerm::LF) ? 2 : sx_branch(c == (uint8_t) LineTerm::CRLF) ? 3 : 4; static const char* N[] = {"ZEROBYTE", "CR", "LF", "CRLF", ""}; static const char* L[] = {"\0", "\r", "\n", "\r\n", ""}; static const uint8_t LEN[] = {1, 1, 1, 2, 0};
      sx_assert(0 == strcmp(lineTerminatorNameStr((LineTerm) c), N[k]) && 0 == strcmp(lineTerminatorLiteralStr((LineTerm) c), L[k]) && lineTerminatorLength((LineTerm) c) == LEN[k], "every line end has its name, its text and its length"); sx_reach("ends");
      static const char* M[] = {"INPUT", "OUTPUT", "INPUT_PULLUP", "INPUT_PULLDOWN", "OUTPUT_OD", "BIDIR_OD", "BIDIR_OD_PULLUP", "ANALOG_OUT", "ANALOG_IN"}; uint8_t m = sx_u8("mode"); const char* w = "UNINIT"; for (int i = 0; i < 9; i++) if (sx_branch(m == i)) { w = M[i]; break; } sx_assert(0 == strcmp(getPinModeStr((GPIOMode) m), w), "every pin mode has its name"); sx_reach("modes");
    } break;
    case 4: {
      static const char* PN[] = {"0", "1", "9", "42", "128", "255", "256", "300", "-1", "65536", "100000"}; static const int PV[] = {0, 1, 9, 42, 128, 255, 256, 300, -1, 65536, 100000}; int p = sx_choose(11, "pin"); bool okp = PV[p] >= 0 && PV[p] < 256; calls = 0; answer = (int8_t) sx_range(0, 1, "answer"); StringBuilder out; int r;
      switch (sx_choose(4, "cmd")) {
        case 0: { static const char* MN[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "255", "256", "257", "-255"}; int m = sx_choose(14, "mode"); StringBuilder a; a.concat("mode "); a.concat(PN[p]); a.concat(" "); a.concat(MN[m]); a.split(" "); r = callback_gpio_value(&out, &a); bool ok = okp && m < 9; sx_assert(calls == (ok ? 1 : 0), "the mode of a pin is set if both exist"); if (ok) { sx_assert(pin_called == PV[p] && mode_called == m, "the pin that was named gets the mode that was named"); sx_reach("gpio_mode"); } else sx_reach("gpio_refused"); sx_assert(!out.isEmpty(), "the command answers"); } break;
        case 1: { static const char* VN[] = {"0", "1", "5", "-1"}; int v = sx_choose(4, "value"); StringBuilder a; a.concat(sx_choose(2, "case") ? "VAL " : "val "); a.concat(PN[p]); a.concat(" "); a.concat(VN[v]); a.split(" "); r = callback_gpio_value(&out, &a); sx_assert(calls == (okp ? 1 : 0), "a pin is set if it exists"); if (okp) { sx_assert(pin_called == PV[p] && val_called == (v ? 1 : 0), "the pin that was named gets the value that was named"); sx_reach("gpio_val"); } } break;
        case 2: { StringBuilder a; a.concat("val "); a.concat(PN[p]); a.split(" "); r = callback_gpio_value(&out, &a); sx_assert(calls == (okp ? 1 : 0), "a pin is read if it exists"); if (okp) sx_assert(pin_called == PV[p] && val_called == 9 && out.contains(sx_branch(answer != 0) ? "high" : "low"), "the pin that was named is read"); } break;
        default: { StringBuilder a; a.concat(sx_choose(2, "word") ? "mode" : "pins"); bool known = a.byteAt(0) == 'm'; a.split(" "); r = callback_gpio_value(&out, &a); sx_assert(calls == 0 && (r == 0) == known && out.isEmpty() == !known, "an unknown command does nothing"); if (known) sx_assert(out.contains("8: ANALOG_IN") && out.contains("0: INPUT"), "the modes are listed"); sx_reach("listed"); } break;
      }
    } break;
    default: {
      switch (sx_choose(4, "what")) {
        case 0: { static const int V[] = {0, 7, -12345, 2147483647}; plat_log_hook = hook; logs = 0; uint8_t sv = sx_u8("severity"); int v = V[sx_choose(4, "v")]; c3p_log(sv, "tag", "<%d|%s|%c>", v, "text", 'x'); char e[64]; sprintf(e, "<%d|%s|%c>", v, "text", 'x'); sx_assert(logs == 1 && log_sev == sv && 0 == strcmp(log_tag, "tag") && 0 == strcmp(log_text, e), "a formatted message is logged as formatted"); plat_log_hook = nullptr; sx_reach("log"); } break;
        case 1: { uint32_t f = sx_u32("flags"), m = sx_u32("mask"); bool en = sx_choose(2, "en"); pl._pflags = f; sx_assert(pl._check_flags(m) == ((f & m) == m), "flags are all asked for"); sx_assert(pl.platformState() == (f & 7), "the state of a platform"); pl._alter_flags(en, m); sx_assert(pl._pflags == (en ? (f | m) : (f & ~m)), "the flags named change, and no others"); uint8_t s = sx_u8("state"); sx_assume(s < 8); uint32_t g = pl._pflags; pl._set_init_state(s); sx_assert(pl.platformState() == s && (pl._pflags & ~7u) == (g & ~7u), "the state changes, and no flags"); sx_assert(pl.hasSerialNumber() == ((g >> 6) & 1) && pl.hasStorage() == ((g >> 7) & 1) && pl.hasLocation() == ((g >> 8) & 1) && pl.hasTimeAndDate() == ((g >> 9) & 1) && pl.rtcInitilized() == ((g >> 10) & 1) && pl.rtcAccurate() == ((g >> 11) & 1) && pl.bigEndian() == ((g >> 12) & 1), "each ability has its flag"); sx_reach("flags"); } break;
        case 2: { pl.ret = (int8_t) sx_u8("ret"); sx_assert(platform_init() == pl.ret && pl.inits == 1, "the platform is initialized"); plat = nullptr; sx_assert(platform_init() != 0, "without a platform, there is nothing to initialize"); pl._discover_alu_params(); sx_assert(pl.aluWidth() == 8 * sizeof(void*) && !pl.bigEndian(), "the machine is as it is"); sx_reach("init"); } break;
        default: { static const char* CN[] = {"0", "7", "255"}; static const uint8_t CV[] = {0, 7, 255}; int c = sx_choose(3, "code"); StringBuilder a, o; a.concat(CN[c]); sx_assert(0 == callback_reboot(&o, &a) && pl.resets == 1 && pl.code == CV[c] && pl.prints == 0, "a reboot is for the reason given"); StringBuilder n; sx_assert(0 == callback_platform_info(&o, &n) && pl.prints == 1 && pl.resets == 1, "the platform prints itself"); sx_reach("reboot"); } break;
      }
    } break;
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}

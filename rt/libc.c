/* Small C library model, compiled to bitcode only (the native side uses glibc). */
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
void* malloc(size_t); void free(void*);
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t);
extern uint32_t sx_fmt_double(char* out, uint32_t cap, const char* spec, double v);
extern double sx_strtod(const char* s, uint32_t* consumed);
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return 0; }
static int inset(char c, const char* s) { for (; *s; s++) if (*s == c) return 1; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && inset(s[n], a)) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !inset(s[n], a)) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** save) {
  if (!s) s = *save;
  if (!s) return 0;
  s += strspn(s, d); if (!*s) { *save = s; return 0; }
  char* e = s + strcspn(s, d); if (!*e) { *save = e; return s; }
  *e = 0; *save = e + 1; return s;
}
char* __strtok_r(char* s, const char* d, char** save) { return strtok_r(s, d, save); }
static char* tok_save;
char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_save); }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); memcpy(r, s, n); return r; }
#undef tolower
#undef toupper
int tolower(int c) { if (c >= -128 && c < -1) c += 256; return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper(int c) { if (c >= -128 && c < -1) c += 256; return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
/* glibc <ctype.h> tables (isspace() etc. expand to these) */
static unsigned short ctab[384]; static int32_t lowtab[384], uptab[384];
static const unsigned short* pc; static const int32_t *pl, *pu; static int ctinit;
static void ct(void) {
  if (ctinit) return; ctinit = 1;
  for (int i = -128; i < 256; i++) {
    unsigned short m = 0; int c = i;
    if (c >= 0 && c < 128) { if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isprint(c) && c != ' ') m |= 1 << 15; if (c == ' ' || c == 9) m |= 1; if (c < 32 || c == 127) m |= 2; if (ispunct(c)) m |= 4; if (isalnum(c)) m |= 8; }
    ctab[i + 128] = m; lowtab[i + 128] = tolower(c); uptab[i + 128] = toupper(c);
  }
  pc = ctab + 128; pl = lowtab + 128; pu = uptab + 128;
}
const unsigned short** __ctype_b_loc(void) { ct(); return &pc; }
const int32_t** __ctype_tolower_loc(void) { ct(); return &pl; }
const int32_t** __ctype_toupper_loc(void) { ct(); return &pu; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; } return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
static int dig(int c, int base) { int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else return -1; return d < base ? d : -1; }
static uint64_t strtox(const char* s, char** e, int base, int sgn, int bits) {
  const char* s0 = s; while (isspace((unsigned char)*s)) s++;
  int neg = 0; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2], 16) >= 0) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
  uint64_t lim = bits == 64 ? ~0ULL : 0xffffffffULL; uint64_t smax = (lim >> 1) + (neg ? 1 : 0);
  uint64_t max = sgn ? smax : lim, r = 0; int any = 0, ov = 0, d;
  uint64_t q = base == 10 ? max / 10 : base == 16 ? max / 16 : max / (unsigned)base, rem = max - q * (unsigned)base;
  while ((d = dig((unsigned char)*s, base)) >= 0) { any = 1; if (!ov) { if (r > q || (r == q && (uint64_t)d > rem)) ov = 1; else r = r * (unsigned)base + (unsigned)d; } s++; }
  if (e) *e = (char*)(any ? s : s0);
  if (ov) return sgn ? (neg ? 0 - smax : smax) : lim;
  return neg ? 0 - r : r;
}
long strtol(const char* s, char** e, int b) { return (long)(uint32_t)strtox(s, e, b, 1, 32); }
unsigned long strtoul(const char* s, char** e, int b) { return (uint32_t)strtox(s, e, b, 0, 32); }
long long strtoll(const char* s, char** e, int b) { return (long long)strtox(s, e, b, 1, 64); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtox(s, e, b, 0, 64); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtoll(s, 0, 10); }
double strtod(const char* s, char** e) { uint32_t n = 0; double d = sx_strtod(s, &n); if (e) *e = (char*)s + n; return d; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
/* ---- vsnprintf */
struct ob { char* p; size_t cap, n; };
static void oc(struct ob* o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  struct ob o = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    const char* f0 = f; f++;
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'h') lng--; else if (*f == 'z' || *f == 't') {} else if (*f == 'j') lng = 2; else break; }
    char tmp[72]; int tn = 0; const char* s = tmp; char sign = 0; const char* pre = "";
    switch (*f) {
      case '%': oc(&o, '%'); continue;
      case 'c': tmp[0] = (char)va_arg(ap, int); tn = 1; zero = 0; break;
      case 's': s = va_arg(ap, const char*); if (!s) s = "(null)"; tn = prec >= 0 ? (int)strnlen(s, prec) : (int)strlen(s); zero = 0; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        uint64_t v; int sg = *f == 'd' || *f == 'i'; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'p') { v = (uint32_t)va_arg(ap, void*); if (!v) { s = "(nil)"; tn = 5; zero = 0; break; } pre = "0x"; } else if (lng >= 2) v = va_arg(ap, uint64_t); else { uint32_t x = va_arg(ap, uint32_t); if (lng == -1) x = sg ? (uint32_t)(int32_t)(int16_t)x : (uint16_t)x; if (lng == -2) x = sg ? (uint32_t)(int32_t)(int8_t)x : (uint8_t)x; v = sg ? (uint64_t)(int64_t)(int32_t)x : x; }
        if (sg && (int64_t)v < 0) { sign = '-'; v = 0 - v; } else if (sg && plus) sign = '+'; else if (sg && space) sign = ' ';
        if (alt && v && base == 16) pre = *f == 'X' ? "0X" : "0x";
        char rev[68]; int rn = 0;
        if (v >> 32) { do { unsigned d = (unsigned)(v % base); v /= base; rev[rn++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; } while (v); }
        else { uint32_t v32 = (uint32_t)v; do { unsigned d = v32 % base; v32 /= base; rev[rn++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; } while (v32); }
        if (prec == 0 && rn == 1 && rev[0] == '0') rn = 0;
        while (rn < prec && rn < 66) rev[rn++] = '0';
        if (prec >= 0) zero = 0;
        for (int i = 0; i < rn; i++) tmp[i] = rev[rn - 1 - i];
        tn = rn; break; }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
        double d = va_arg(ap, double); char spec[16]; int k = 0; spec[k++] = '%'; if (plus) spec[k++] = '+'; if (space) spec[k++] = ' '; if (alt) spec[k++] = '#';
        if (prec >= 0) { spec[k++] = '.'; if (prec >= 10) spec[k++] = '0' + (prec / 10) % 10; spec[k++] = '0' + prec % 10; } spec[k++] = *f; spec[k] = 0;
        static char big[512]; tn = (int)sx_fmt_double(big, sizeof big, spec, d); s = big; if (tn && (big[0] == '-' || big[0] == '+' || big[0] == ' ')) { sign = big[0]; s = big + 1; tn--; } break; }
      default: for (const char* q = f0; q <= f && *q; q++) oc(&o, *q); if (!*f) f--; continue;
    }
    int pl = 0; while (pre[pl]) pl++;
    int tot = tn + (sign ? 1 : 0) + pl;
    if (!left && !zero) for (int i = tot; i < width; i++) oc(&o, ' ');
    if (sign) oc(&o, sign);
    for (int i = 0; i < pl; i++) oc(&o, pre[i]);
    if (!left && zero) for (int i = tot; i < width; i++) oc(&o, '0');
    for (int i = 0; i < tn; i++) oc(&o, s[i]);
    if (left) for (int i = tot; i < width; i++) oc(&o, ' ');
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int __vsnprintf_chk(char* b, size_t n, int fl, size_t sl, const char* f, va_list ap) { return vsnprintf(b, n, f, ap); }
void bzero(void* p, size_t n) { memset(p, 0, n); }
static uint32_t rs = 12345;
void srand(unsigned s) { rs = s; }
int rand(void) { rs = rs * 1103515245u + 12345u; return (int)((rs >> 1) & 0x7fffffff); }
long random(void) { return rand(); }
static int errno_; int* __errno_location(void) { return &errno_; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = p[j * sz + k]; p[j * sz + k] = t; }
}
int pthread_mutex_init(void* m, const void* a) { return 0; }
int pthread_mutex_destroy(void* m) { return 0; }
int pthread_mutex_lock(void* m) { return 0; }
int pthread_mutex_unlock(void* m) { return 0; }
int pthread_mutex_trylock(void* m) { return 0; }

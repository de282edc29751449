// Native side of the harness API: feeds recorded inputs to the real code.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
int sx_main();
static uint8_t* in; static uint32_t inN, inP; static FILE* nf; static char hasTag[256];
static uint64_t take(unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; i++) { uint8_t b = inP < inN ? in[inP] : 0; inP++; r |= (uint64_t)b << (8 * i); } return r; }
static void finish(int rc) { fflush(stdout); if (nf) fflush(nf); _exit(rc); }
extern "C" {
uint8_t sx_u8(const char*) { return take(1); }
uint16_t sx_u16(const char*) { return take(2); }
uint32_t sx_u32(const char*) { return take(4); }
uint64_t sx_u64(const char*) { return take(8); }
void sx_bytes(void* p, uint32_t n, const char*) { for (uint32_t i = 0; i < n; i++) ((uint8_t*)p)[i] = take(1); }
uint32_t sx_range(uint32_t lo, uint32_t hi, const char*) { uint32_t v = take(hi < 256 ? 1 : hi < 65536 ? 2 : 4); if (v < lo || v > hi) finish(77); return v; }
uint32_t sx_choose(uint32_t n, const char*) { uint32_t v = take(1); if (v >= n) finish(77); return v; }
void sx_assume_(int c) { if (!c) finish(77); }
void sx_assert_(int c, const char* l) { if (!c) { fprintf(stdout, "SXFAIL assert %s\n", l); finish(88); } }
void sx_fail(const char* l) { fprintf(stdout, "SXFAIL assert %s\n", l); finish(88); }
void sx_reach(const char*) {}
void sx_note(uint32_t v) { if (nf) fprintf(nf, "%u\n", v); }
void sx_note64(uint64_t v) { sx_note((uint32_t)v); sx_note((uint32_t)(v >> 32)); }
uint32_t sx_concretize(uint32_t v) { return v; }
int sx_branch(int c) { return c != 0; }
uint32_t sx_heap_bytes(void) { return (uint32_t)__sanitizer_get_current_allocated_bytes(); }
uint32_t sx_heap_blocks(void) { return 0; }
void sx_known(const char*) {}
void sx_budget(uint32_t) {}
void sx_end(void) { fprintf(stdout, "SXDONE\n"); finish(0); }
void sx_print(const char*, uint32_t) {}
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// replay file: first line = hex inputs.   usage: native FILE  |  native -batch FILE OUT  (one hex line per trace)
static int runOne(const char* hex) {
  size_t n = strlen(hex) / 2; in = (uint8_t*)malloc(n + 1); inN = n; inP = 0;
  for (size_t i = 0; i < n; i++) in[i] = hexv(hex[2 * i]) << 4 | hexv(hex[2 * i + 1]);
  alarm(20);
  sx_main();
  fprintf(stdout, "SXDONE\n"); finish(0); return 0;
}
int main(int argc, char** argv) {
  setvbuf(stdout, NULL, _IONBF, 0);   // no heap of its own
  static char line[1 << 20];
  if (argc >= 4 && !strcmp(argv[1], "-batch")) {
    FILE* f = fopen(argv[2], "r"); int idx = 0;
    while (f && fgets(line, sizeof line, f)) {
      line[strcspn(line, "\r\n")] = 0;
      char p[512]; snprintf(p, sizeof p, "%s.%d", argv[3], idx++);
      pid_t c = fork();
      if (!c) { nf = fopen(p, "w"); runOne(line); }
      int st; waitpid(c, &st, 0); FILE* o = fopen(p, "a"); fprintf(o, "rc %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fclose(o);
    }
    return 0;
  }
  if (argc < 2) { fprintf(stderr, "usage: %s replay-file\n", argv[0]); return 2; }
  FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; line[strcspn(line, "\r\n")] = 0; break; }
  fclose(f);
  return runOne(line);
}

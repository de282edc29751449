/* Harness API. The same harness is (a) executed symbolically by engine/sx and (b) compiled natively and driven by rt/sxrt.cpp. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t  sx_u8(const char* name);
uint16_t sx_u16(const char* name);
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
void     sx_bytes(void* p, uint32_t n, const char* name);
uint32_t sx_range(uint32_t lo, uint32_t hi, const char* name);   /* symbolic value in [lo, hi] */
uint32_t sx_choose(uint32_t n, const char* name);                /* forks: 0 .. n-1 (n <= 256), concrete on every path */
void     sx_assume_(int c);
void     sx_assert_(int c, const char* label);
void     sx_fail(const char* label);
void     sx_reach(const char* label);                            /* coverage witness; required by the check */
void     sx_note(uint32_t v);                                    /* observed value, compared engine vs. native */
void     sx_note64(uint64_t v);
uint32_t sx_concretize(uint32_t v);                              /* forks over all feasible values */
int      sx_branch(int c);                                       /* forks on a condition */
uint32_t sx_heap_bytes(void);
uint32_t sx_heap_blocks(void);
void     sx_known(const char* tag);                              /* from here on the path is in the region of a listed finding */
void     sx_budget(uint32_t instructions);                       /* termination bound for what follows */
void     sx_end(void);                                           /* successful end of the path */
void     sx_print(const char* n, uint32_t v);
#ifdef __cplusplus
}
#endif
#define sx_assume(c) sx_assume_((c) ? 1 : 0)
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, label) sx_assert_((c) ? 1 : 0, label)
